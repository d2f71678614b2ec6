#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
S = 'ink_stroke_modeler/stroke_modeler.cc'
I = 'ink_stroke_modeler/internal/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), at=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'observe_at': list(at), 'hook_needed': None}})


HIST = 'every history of calls leading to the state, every parameter set and every input value'
prop('C01', 'A rejected call leaves no trace',
     'A call that returns an error (an input, a parameter set, a reset or a prediction request that is not accepted) leaves the modeler exactly as it was, so that every later call behaves as if the rejected one had never been made. A rejected input adds nothing to the caller\'s results. A rejected parameter set leaves the previous parameters, stroke and saved state in force.',
     ['histories', 'inputs', 'configurations'], HIST + ', for every reason a call can be rejected',
     'Tests reject a handful of inputs in a handful of states and look only at the status or the next output; the claim covers all state that any later call can read.',
     [S, I + 'utils.cc', 'ink_stroke_modeler/types.cc'],
     [('all validation and the step count precede the first modification', 'StrokeModeler::Update, ProcessMoveEvent, ProcessUpEvent, ProcessDownEvent, Reset')],
     [('last_input_', 'the input of the stroke in progress', 'stroke_modeler.h')], ['StrokeModeler::Update', 'StrokeModeler::Reset', 'StrokeModeler::Predict'])
prop('C02', 'Exactly the valid inputs are accepted, with the documented status',
     'An input is accepted exactly when the modeler has parameters, the event type is known, position and time are finite, the input is not identical to the previous one of the stroke, its time is not before the previous one, a down event comes when no stroke is in progress and a move or up event when one is, and the step count stays within the configured limit. Otherwise the call fails: with a failed-precondition status when there are no parameters or the event does not fit the stroke, with an invalid-argument status for everything else. Pressure, tilt and orientation never cause a rejection.',
     ['inputs', 'histories'], 'every input value including NaN, infinities and out-of-range enumerators, in every state of the modeler',
     'Tests sample some rejected inputs; the accept set and the precedence of reasons are statements about all inputs in all states.',
     [S, 'ink_stroke_modeler/types.cc', 'ink_stroke_modeler/types.h'], [('validation order', 'StrokeModeler::Update'), ('field validation', 'ValidateInput')], (), ['StrokeModeler::Update'])
prop('C03', 'Reset aborts the stroke and installs the given parameters',
     'After an accepted reset no stroke is in progress and no saved state can be restored. A reset with parameters makes every later result depend only on those parameters and the inputs after the reset, and selects the predictor they name; a reset without parameters keeps the parameters and predictor and fails with a failed-precondition status if none were ever given. Nothing of the aborted stroke influences later results.',
     ['histories', 'configurations'], 'every state in which reset may be called, including mid-stroke, after save, and with any previous parameters',
     'Tests reset in a few situations and compare a few outputs.', [S], [('parameters stored, stroke and save cleared, predictor rebuilt', 'StrokeModeler::Reset, ResetInternal')], (), ['StrokeModeler::Reset'])
prop('C04', 'Predict replaces the output and is available exactly during a stroke',
     'A prediction request succeeds exactly when parameters were given, prediction is not disabled and a stroke is in progress, and fails with a failed-precondition status otherwise. Whatever the outcome, the previous contents of the caller\'s vector are discarded, and on failure it is left empty. On success it holds exactly the prediction: nothing is appended to older contents.',
     ['histories', 'configurations', 'inputs'], 'every modeler state, every parameter set, every prior content of the output vector',
     'Tests predict into empty or short vectors in some states.', [S], [('results.clear() first, then the checks', 'StrokeModeler::Predict')], (), ['StrokeModeler::Predict'])
prop('C05', 'Predicting never affects the model',
     'A prediction does not change anything that a later call can observe: results, statuses and predictions after it are the same as without it, however often it is made. Repeating a prediction with no call in between gives the same prediction.',
     ['histories', 'configurations'], 'every modeler state, every predictor and parameter set',
     'A test compares one or two streams with and without a prediction; hidden state touched under other parameters stays unnoticed.',
     [S, I + 'prediction/kalman_predictor.cc', I + 'prediction/stroke_end_predictor.cc'], [('const interface, copy of the loop modeler', 'StrokeModeler::Predict'), ('mutable scratch buffer refilled before each use', 'stroke_modeler.h')], (), ['StrokeModeler::Predict'])
prop('C06', 'Strokes do not leak into each other',
     'The results and predictions of a stroke depend only on the parameters and on the inputs from its down event on, not on earlier strokes, however those ended (completed, or aborted by a reset). Everything the previous stroke accumulated is discarded by the time the down event has been processed.',
     ['histories', 'configurations'], 'every history of completed, aborted, saved or restored strokes before the down event',
     'Tests run one or two strokes per modeler; each piece of per-stroke state would need its own history to show a leak.',
     [S, I + 'wobble_smoother.cc', I + 'stylus_state_modeler.cc', I + 'loop_contraction_mitigation_modeler.cc', I + 'prediction/kalman_predictor.cc'],
     [('every sub-modeler reset on the down event', 'StrokeModeler::ProcessDownEvent')], (), ['StrokeModeler::Update'])
prop('C07', 'Restore returns the model exactly to the saved point',
     'After a restore, every call behaves exactly as it would have right after the save, whatever inputs and predictions came in between. The saved point stays available, so restoring again returns to the same point. Saving replaces the previously saved point as a whole.',
     ['histories', 'configurations'], 'every state at the save, every sequence of inputs, predictions and further restores in between',
     'A test covers a few save and restore sequences; a field left out of the snapshot shows only in histories that exercise that field.',
     [S, I + 'wobble_smoother.cc', I + 'position_modeler.cc', I + 'stylus_state_modeler.cc', I + 'loop_contraction_mitigation_modeler.cc'],
     [('each modeler copies its state', 'Save and Restore of every class')], (('save_active_', 'a restorable snapshot exists', 'stroke_modeler.h'),), ['StrokeModeler::Save', 'StrokeModeler::Restore'])
prop('C08', 'Restore without a save is a no-op; saving does not disturb the stroke',
     'A restore does nothing at all when no save was made since the last reset. A point saved during one stroke is never restored into a stroke begun after that. Saving does not change any result or prediction.',
     ['histories'], 'every history of saves, restores, resets and strokes',
     'Tests check the no-op restore in one or two states.', [S], [('save_active_ flag', 'StrokeModeler::Restore'), ('dropped snapshot', 'StrokeModeler::ProcessDownEvent, ResetInternal')], (), ['StrokeModeler::Save', 'StrokeModeler::Restore'])
prop('C09', 'Results depend on nothing but the calls made on that modeler',
     'The behaviour of a modeler is a function of the parameters and the calls made on it: it does not depend on other modelers, on global or static mutable state, on the clock, the environment, random numbers, addresses or uninitialised memory. Two modelers given the same calls produce identical results.',
     ['programs', 'histories', 'schedules'], 'every program using any number of modelers in any interleaving',
     'A hidden input that happens to be constant during a test run cannot be seen by running tests.', ['ink_stroke_modeler/'], [('no mutable statics, no system calls, members initialised', 'whole library')], (), ['all entry points'])
prop('C10', 'Exactly the valid parameters are accepted',
     'A parameter set is accepted exactly when every parameter that matters lies in its documented range: finite where it is a real number, positive or non-negative as documented, bounds ordered, counts within their caps, ratios within [0, 1], and loop mitigation only together with stroke-normal projection. Anything else, in particular NaN and infinities in any used field, is rejected with an invalid-argument status by the validation functions and by the modeler\'s reset alike.',
     ['configurations'], 'every value of every parameter field, including NaN, infinities and extreme integers, in every combination',
     'Tests try a few bad values per field, one at a time.', ['ink_stroke_modeler/params.cc', 'ink_stroke_modeler/params.h', I + 'validation.h'], [('per-field checks', 'Validate*Params')], (), ['ValidateStrokeModelParams', 'StrokeModeler::Reset'])
prop('C11', 'Parameters of disabled features have no influence',
     'The parameters of a feature that is switched off (wobble smoothing, loop mitigation, stroke-normal projection versus fixed-size history, the predictors not chosen, and angle-based upsampling) influence neither validation nor any result or prediction. The modeler behaves the same for every value they might hold, including invalid ones.',
     ['configurations', 'histories'], 'every value of the ignored fields, in every stroke',
     'Tests leave disabled fields at their defaults.', ['ink_stroke_modeler/params.h', I + 'wobble_smoother.cc', I + 'stylus_state_modeler.cc', I + 'loop_contraction_mitigation_modeler.cc'], [('is_enabled and use_stroke_normal_projection guards', 'users of the parameter structs')], (), ['StrokeModeler::Update', 'StrokeModeler::Predict'])
prop('C12', 'Accepted inputs append at least one and at most the configured number of results',
     'An accepted input appends its results to the caller\'s vector, leaving what was there untouched, and appends at least one. No call, prediction included, produces more results than the configured maximum number of outputs per call; an input that would need more steps is rejected with an invalid-argument status.',
     ['inputs', 'histories', 'configurations'], 'every input and state, every value of the limits, arbitrarily long gaps between inputs',
     'The limit is reached in one or two tests; the bound must hold for every path that adds results.', [S, I + 'utils.cc', I + 'position_modeler.h', I + 'prediction/'],
     [('step count check', 'NumberOfStepsBetweenInputs'), ('remaining budget for end-of-stroke iterations', 'ProcessUpEvent')], (), ['StrokeModeler::Update', 'StrokeModeler::Predict'])
prop('C13', 'A down event yields one result that is exactly the input',
     'An accepted down event appends exactly one result: the position, time, pressure, tilt and orientation of the input itself, with zero velocity and zero acceleration. The modeled tip then rests at that position.',
     ['inputs', 'histories', 'configurations'], 'every down event in every state and under every parameter set',
     'Tests check some down events.', [S], [('result built from the input', 'StrokeModeler::ProcessDownEvent')], (), ['StrokeModeler::Update'])
prop('C14', 'The tip obeys the damped spring law at every step',
     'At each modeled step the tip\'s acceleration is its offset from the anchor divided by the spring-mass constant minus the drag constant times its velocity; velocity is advanced by acceleration times the time step and then position by the new velocity times the time step. The time of the state becomes the time of the step and the state is what the next step starts from.',
     ['inputs', 'configurations', 'histories'], 'every state, anchor, time step and pair of constants',
     'Numeric tests sample a few states with default constants.', [I + 'position_modeler.h'], [('semi-implicit Euler step', 'PositionModeler::Update')], (), ['PositionModeler::Update'])
prop('C15', 'Inputs are upsampled to the minimum rate along a straight path',
     'Between two inputs the modeler takes the smallest whole number of equal time steps that meets the minimum output rate and, if set, keeps the estimated turn per step within the configured angle. The anchors of the steps divide the straight segment from the previous to the new anchor into equal parts, the last being the new anchor at the new input\'s time. Inputs faster than the minimum rate give one step each.',
     ['inputs', 'configurations', 'histories'], 'every pair of inputs, tip state, rate and angle limit',
     'Tests sample some intervals and rates.', [I + 'utils.cc', I + 'position_modeler.h'], [('step count', 'NumberOfStepsBetweenInputs'), ('interpolated anchors', 'PositionModeler::UpdateAlongLinearPath')], (), ['StrokeModeler::Update'])
prop('C16', 'End of stroke approaches the final anchor without overshoot',
     'After the last input the tip keeps being pulled to the final anchor with steps of one minimum-rate period until it is within the stopping distance, a step moves it less than that distance, or the iteration limit is reached. A step that would overshoot the closest point to the anchor is discarded and retried with half the time step. Only accepted steps are output, each advancing time by its own step.',
     ['inputs', 'configurations', 'histories'], 'every tip state, anchor, time step, iteration limit and stopping distance',
     'Tests run a few strokes with default limits.', [I + 'position_modeler.h'], [('candidate, rejection and halving loop', 'PositionModeler::ModelEndOfStroke')], (), ['StrokeModeler::Update'])
prop('C17', 'Wobble smoothing blends with the moving average by speed',
     'With smoothing on, the anchor is the input position moved toward the duration-weighted average position of the recent inputs: entirely at or below the floor speed, not at all at or above the ceiling speed, linearly in between, where speed is path length over elapsed time in the same window. The window holds the inputs no older than the timeout. With smoothing off, or for the first input, the anchor is the input position.',
     ['inputs', 'configurations', 'histories'], 'every sequence of positions and times, every timeout and pair of speeds',
     'Tests sample two or three strokes.', [I + 'wobble_smoother.cc'], [('windowed sums and interpolation', 'WobbleSmoother::Update')], (), ['WobbleSmoother::Update'])
prop('C18', 'Unknown stylus attributes stay unknown for the rest of the stroke',
     'Once an input of a stroke lacks pressure, tilt or orientation (a negative value or NaN), every later result of the stroke reports exactly that attribute as unknown (-1), while the other attributes are unaffected. A known attribute is never reported as unknown and the next stroke starts afresh.',
     ['inputs', 'histories'], 'every mix of known and unknown attributes over any number of inputs',
     'Tests drop one attribute at one point of one stroke.', [I + 'stylus_state_modeler.cc'], [('latched flags', 'StylusStateModeler::Update, Query')], (('received_unknown_*', 'attribute was missing', 'stylus_state_modeler.h'),), ['StrokeModeler::Update'])
prop('C19', 'Stylus attributes are interpolated at the projection of the tip',
     'The attributes of a result are those of the raw-input polyline at the tip\'s projection: the closest point, or with stroke-normal projection the intersection with the line normal to the stroke, nearest on each side and on the outside of the turn when both sides have one, falling back to the nearer end point. Between two raw inputs pressure and tilt are interpolated linearly and orientation the shorter way round; an attribute unknown at either is unknown. With no raw inputs kept, the attributes are unknown.',
     ['inputs', 'configurations', 'histories'], 'every polyline, tip state and normal',
     'Tests sample polylines of two or three points.', [I + 'stylus_state_modeler.cc', I + 'utils.cc', I + 'utils.h', I + 'internal_types.cc'], [('projection and interpolation', 'StylusStateModeler::Query, InterpResult, GetStrokeNormal')], (), ['StrokeModeler::Update'])
prop('C20', 'The raw-input history keeps exactly the required samples',
     'Each accepted input is appended to the raw-input history with the velocity and acceleration it implies, and the oldest entries are dropped only while the rest still meets the configured minimum: the newest fixed number of inputs, or with stroke-normal projection the shortest run with at least the minimum count and more than the minimum duration. When no attribute can be known any more and only attributes are needed, the history is discarded.',
     ['inputs', 'configurations', 'histories'], 'every sequence of inputs and every window setting',
     'Tests inspect the history after a few inputs.', [I + 'stylus_state_modeler.cc'], [('append and drop loop', 'StylusStateModeler::Update')], (), ['StylusStateModeler::Update'])
prop('C21', 'Pressure, tilt and orientation never influence the geometry',
     'The number of results, their positions, velocities, accelerations and times, the predictions\' geometry and every status other than that of an exact duplicate do not depend on the pressure, tilt and orientation of the inputs. Conversely each of the three attributes of a result depends on that attribute of the inputs only, never on the other two.',
     ['inputs', 'histories', 'configurations'], 'every pair of input sequences that differ only in stylus attributes',
     'A two-run property over all inputs; tests compare no such pairs.', [S, I + 'stylus_state_modeler.cc', I + 'internal_types.cc'], [('separate treatment of geometry and attributes', 'ModelStylus')], (), ['StrokeModeler::Update', 'StrokeModeler::Predict'])
prop('C22', 'Loop mitigation weight follows the windowed average speed',
     'With loop mitigation on, results are a blend of spring model and raw-input polyline whose weight falls linearly from the low-speed strength to the high-speed strength between the two speed bounds, using the mean speed of the most recent results. The window is the smallest with at least the minimum count and duration. With mitigation off, or before any speed is known, the spring model is used unblended.',
     ['inputs', 'configurations', 'histories'], 'every sequence of speeds and times, every bound and window setting',
     'Tests sample short speed sequences.', [I + 'loop_contraction_mitigation_modeler.cc'], [('speed window and interpolation', 'LoopContractionMitigationModeler::Update, GetInterpolationValue')], (), ['LoopContractionMitigationModeler::Update'])
prop('C23', 'The Kalman filter is the textbook recursion for constant jerk',
     'Each axis runs the standard predict and correct recursion of a Kalman filter with unit time step over position, velocity, acceleration and jerk, process noise entering through jerk and measurement noise on position only. The first sample after a reset sets the position exactly with zero derivatives. The number of iterations counts the samples since the reset.',
     ['inputs', 'configurations', 'histories'], 'every filter state and covariance, every measurement and noise setting',
     'Tests follow a few sequences to a numeric tolerance.', [I + 'prediction/kalman_filter/kalman_filter.cc', I + 'prediction/kalman_filter/axis_predictor.cc', I + 'prediction/kalman_filter/matrix.h'], [('predict and update', 'KalmanFilter::Update')], (), ['KalmanPredictor::GetEstimatedState'])
prop('C24', 'The Kalman estimate is rescaled from sample steps to time',
     'The estimated position, velocity, acceleration and jerk of the stroke are those of the per-axis filters with each derivative divided by the corresponding power of the mean time between the remembered inputs, x from the x filter and y from the y filter. No estimate is given before a first input, before the filters are stable or when the remembered inputs span no time. At most the configured number of input times is remembered.',
     ['inputs', 'configurations', 'histories'], 'every filter state, every sequence of input times',
     'Tests use evenly spaced inputs.', [I + 'prediction/kalman_predictor.cc'], [('time scaling', 'KalmanPredictor::GetEstimatedState, Update')], (), ['KalmanPredictor::GetEstimatedState'])
prop('C25', 'The prediction joins the tip to the estimate smoothly, then extrapolates',
     'The first part of a Kalman prediction is the cubic that starts at the tip with its position and velocity and ends at the estimate with its position and velocity, sampled at equal steps no longer than the output period, its duration chosen from the distance and the larger of tip and estimate speed. The second part extrapolates the estimate with the weighted acceleration and jerk. Times continue from the tip\'s time in steps of the output period.',
     ['inputs', 'configurations', 'histories'], 'every tip state, estimate, weight and rate',
     'Tests sample a few states.', [I + 'prediction/kalman_predictor.cc'], [('connector and extrapolation', 'KalmanPredictor::ConstructCubicConnector, ConstructCubicPrediction')], (), ['KalmanPredictor::ConstructPrediction'])
prop('C26', 'Prediction length follows the confidence heuristics',
     'The number of extrapolated samples is the prediction interval times the output rate times the confidence, rounded up, and never exceeds the full interval. Confidence is the product of four factors in [0, 1]: sample count, distance of the estimate from the last input, travel speed between the bounds, and closeness to a straight line not below its baseline; it is zero before the estimate is stable.',
     ['inputs', 'configurations', 'histories'], 'every estimate and last input, every confidence setting',
     'Tests sample a few confidences.', [I + 'prediction/kalman_predictor.cc'], [('confidence product', 'KalmanPredictor::NumberOfPointsToPredict')], (), ['KalmanPredictor::ConstructPrediction'])
prop('C27', 'Stroke-end prediction equals modeling the end at the last input',
     'With the stroke-end predictor, a prediction is exactly the end-of-stroke modeling from the current tip state toward the last anchor, with the current parameters and limits. Without any input it is empty, and the tip state of the real stroke is unaffected.',
     ['inputs', 'configurations', 'histories'], 'every tip state, last anchor and parameter set',
     'Tests compare a few predictions.', [I + 'prediction/stroke_end_predictor.cc'], [('delegates to end-of-stroke modeling', 'StrokeEndPredictor::ConstructPrediction')], (), ['StrokeEndPredictor::ConstructPrediction'])
prop('C28', 'The modeler is agnostic of the units of space and time',
     'Measuring positions in another unit of length or time in another unit, with parameters converted accordingly, gives the same results converted to those units. No quantity of one dimension is added to, compared with or substituted for one of another, and no dimensional constant is built in.',
     ['inputs', 'configurations', 'histories'], 'every scale factor for space and time, every stroke',
     'Tests fix the units.', ['ink_stroke_modeler/'], [('dimension-consistent formulas', 'whole library')], (), ['StrokeModeler::Update', 'StrokeModeler::Predict'])
prop('C29', 'No undefined operation on any accepted input sequence',
     'With accepted parameters, no sequence of calls makes the library read an empty optional, the front, back or an out-of-range element of a sequence, a null predictor, the wrong alternative of a variant, or divide an integer by zero.',
     ['inputs', 'configurations', 'histories'], 'every accepted parameter set and every sequence of calls',
     'Undefined behaviour shows only on the states that trigger it.', ['ink_stroke_modeler/'], [('guards before each partial operation', 'whole library')], (), ['all entry points'])
prop('C30', 'Every call returns',
     'Every loop that a call can enter terminates, for every state, every accepted parameter set and every input, finite or not: its number of iterations is bounded by a count fixed on entry or by a sequence that it shortens.',
     ['inputs', 'configurations', 'histories'], 'every loop in the library, all inputs including huge and non-finite attribute values',
     'A non-terminating input must be found before a test can show it.', ['ink_stroke_modeler/'], [('counted loops and shrinking queues', 'whole library')], (), ['all entry points'])
prop('C31', 'Value types obey their algebra',
     'Vectors, times and durations compare, add, subtract, scale and divide component by component, compound assignments agree with the binary operators, comparisons of times and durations agree with those of their values, and inputs and results are equal exactly when all of their fields are. The angle between two vectors is the arc cosine of their normalised dot product clamped to [-1, 1], zero if either is zero, and an invalid-argument status if a component is not finite.',
     ['inputs'], 'every value of every operand, NaN included for comparisons',
     'Tests sample values per operator; one swapped field in a comparison can go unnoticed.', ['ink_stroke_modeler/types.h', 'ink_stroke_modeler/types.cc'], [('inline operators', 'types.h')], (), ['types.h'])
prop('C32', 'Results are the composition of the documented stages',
     'Each accepted move or up event smooths the position, extends the raw-input history, advances the spring model along the path from the previous anchor, and outputs for each tip state the blend of its projection on the raw input with the model by the loop-mitigation weight in force before that result. An up event additionally models the end of the stroke at the unsmoothed final position and ends the stroke. A prediction passes the predictor\'s tip states through the same stages without retaining anything.',
     ['inputs', 'configurations', 'histories'], 'every state of every stage, every input',
     'Tests compare a few recorded strokes with tolerances.', [S], [('stage order and data flow', 'ProcessMoveEvent, ProcessUpEvent, Predict, ModelStylus')], (), ['StrokeModeler::Update', 'StrokeModeler::Predict'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P))
