"""The properties and what decides each of them."""
import relational as rl

ASSUME = [
    'floating-point arithmetic is read as arithmetic over the reals, except where a property is about NaN or infinite inputs',
    'integers do not overflow',
    'the exporter (tool/inkdump.cc, clang 18 AST) and the library models (engine/lib.py) describe the code faithfully',
    'absl::Substitute/StrFormat texts are opaque: messages are not compared, status codes are',
]
PAIR = ('Gated value graphs of the code and of a reference law are built from the parsed source over the same symbolic state and '
        'compared value by value: global value numbering (random interpretation over a 61-bit field) first, then a split on the '
        'comparison atoms with an interval and linear-inequality domain. ')
VN = 'static value-graph comparison (gated SSA, value numbering, interval/linear domain)'
PROPS = {}


def law(pid, text, note, analyses=(), technique=VN, level='other', assume=()):
    PROPS[pid] = {'explanation': PAIR + text, 'note': note, 'analyses': list(analyses), 'technique': technique, 'level': level, 'assume': list(assume)}


law('C02', 'Here: ValidateInput and the status and effect of StrokeModeler::Update for every input, state and parameter set, with NaN and infinities as cases.',
    'Over all inputs and modeler states, IEEE special values included; finite real arithmetic otherwise.')
law('C10', 'Here: every parameter validator and Reset against the documented accept sets, with NaN and infinities as separate cases of every comparison.',
    'All parameter values including NaN and infinities; messages not compared.')
law('C13', 'Here: results, tip and stages after an accepted down event against their definition.', 'Any modeler state and parameters.')
law('C14', 'Here: one step and a loop of steps of the position modeler against the damped spring law, from any state and parameters.',
    'Over all states, parameters and anchors; arithmetic over the reals; loops by matching their recurrences.')
law('C15', 'Here: the step count and the anchors, times and states of the path between two inputs.',
    'Over all states, parameters and inputs; arithmetic over the reals.')
law('C16', 'Here: the loop that models the end of the stroke, from any tip state, against the law with step halving.',
    'Over all states, parameters and anchors; arithmetic over the reals.')
law('C17', 'Here: the smoothed position and the window after the first inputs and for any window contents.',
    'One update over any window contents; whole histories up to the bound in the evidence; arithmetic over the reals.')
law('C18', 'Here: the marks of missing attributes after an input (NaN as a case of its own) and after a down event, and what a query and the blend do with them.',
    'Any history; composition with the pipeline is C32.')
law('C19', 'Here: interpolation, nearest-point projection and normal intersection against their definitions over any polyline.',
    'Over any polyline and tip state; arithmetic over the reals.')
law('C20', 'Here: what an update appends to and drops from the raw-input history, over any history.', 'Over any history; arithmetic over the reals.')
law('C22', 'Here: the blend weight over any window of speeds and the window kept by an update.',
    'Weight over any window; window maintenance for the first dropped entries as stated in the evidence.')
law('C23', 'Here: one and two filter steps from any state and covariance, four from the start, and a reset.',
    'One step from any symmetric covariance, which implies all; arithmetic over the reals.')
law('C24', 'Here: the estimate derived from the filters and the remembered times, over any filter state and times.', 'Over any predictor state; arithmetic over the reals.')
law('C25', 'Here: the cubic connector and the extrapolation loop against their definitions.', 'Over any states and parameters; arithmetic over the reals.')
law('C26', 'Here: the number of extrapolated samples from the confidence factors.', 'Over any predictor state and parameters; arithmetic over the reals.')
law('C27', 'Here: the stroke-end predictor against end-of-stroke modeling from the same tip state.', 'Over any tip state and parameters.')
law('C31', 'Here: every operator of the value types against component-wise arithmetic and comparison, with NaN and infinities as cases of the comparisons.',
    'All values; arithmetic over the reals, comparisons with IEEE special values.')
law('C32', 'Here: the move, up and prediction pipelines against the composition of the stage functions.', 'Over all modeler states, parameters and inputs; stages opaque in both.')

REL = ('The public operations are read once each over symbolic modelers; their value graphs are composed into histories and the two compositions '
       'a property relates are compared in every observable part (status, results, every part of the modeler that some call can observe, found by a '
       'dependence fixpoint). Parts of the state an operation may have changed are replaced by arbitrary values; what stays constant is an inferred '
       'invariant. A difference is reported only if it also shows on a state reached from a new modeler by some history. ')
TWO = 'two-copy noninterference and effect analysis over composed value graphs'


def relate(pid, text, note, fns):
    law(pid, '', note, [(f.__name__, f) for f in fns], TWO)
    PROPS[pid]['explanation'] = REL + text


relate('C01', 'Here: the modeler and the results after every failing Update, Reset and Predict equal those before.', 'Any modeler state, any arguments.', [rl.rejected])
relate('C03', 'Here: whatever the modeler before, after a reset the first call and the state after the first down event equal those of a new modeler with the same parameters; '
       'no move, up, prediction or restore has an effect before. Which parameters and predictor a reset installs is compared with a reference.',
       'Any modeler state before the reset.', [rl.fresh_after_reset])
relate('C04', 'Here: results of a prediction do not depend on the vector passed; a failing one leaves it empty; it is available exactly when documented.', 'Any modeler state; availability over histories up to down, move, up.', [rl.replaced])
relate('C05', 'Here: the modeler after a prediction equals the one before in every observable part.', 'Any modeler state.', [rl.predicting])
relate('C06', 'Here: status, results and modeler after a down event following a completed or aborted stroke do not depend on the state before.', 'Any modeler state.', [rl.strokes])
relate('C07', 'Here: the modeler after save, any sequence of further calls and restore equals the modeler after the save.', 'Any modeler state at the save, any number and order of calls in between (as a fixpoint over what they can change).', [rl.restoring])
relate('C08', 'Here: a restore without a save, or with a save of an earlier stroke, changes nothing; a save changes nothing a result is computed from.', 'Any state; any calls in between (as an inductive invariant).', [rl.saving])
relate('C09', 'Here: what a call does is computed from the modeler and the arguments alone: no call out to clocks, random numbers or the environment, no dependence on a variable '
       'that outlives the call (two histories, with and without another modeler used before), none on a value that was never set (two copies with different unset values).',
       'Any modeler state for the first two; unset values along the histories in the evidence and in every state for local variables.', [rl.isolated])
relate('C11', 'Here: two modelers whose parameters differ only where a feature is off give the same statuses and results for every call, by a relation between their states '
       'that every operation preserves.', 'Any parameters, any modeler states in the relation.', [rl.disabled])
relate('C12', 'Here: the number of results an accepted call appends, as bounds read off the loops that append them (rounds from the counter an exit condition '
       'compares with a value fixed on entry), against one and the configured maximum; and that the caller\'s vector is only appended to.',
       'Any modeler state after an accepted reset, any parameters it accepts, any input; integers do not overflow.', [rl.sized])
relate('C30', 'Here: every loop any call can enter, with a count (an integer that advances by a constant towards a limit fixed on entry) or a sequence that every round shortens '
       'and that ends the loop at the latest when it is used up.',
       'Any modeler state in a stroke, any parameters a reset accepts, any input; a loop ended only by a comparison of reals that is not bounded by either is reported when '
       'the distance it has to go is an input.', [rl.terminating])
relate('C21', 'Here: status, geometry and each attribute of the results of every call, and every part of the state they are computed from, depend on no other '
       'attribute of the inputs (records are split into columns, loops into the cells a value needs); case splits on parameters, flags and branches.',
       'Any modeler state in the relation, any parameters and inputs; arithmetic over the reals.', [rl.attributes])
NA = {
    'C28': 'needs physical dimensions for every value, but the code carries none (all are float, and parameters such as drag are dimensionless by folding unit constants in); '
           'inferring them by unification over the value graphs was not built, and annotating variables by name would judge the writing, not the behaviour',
    'C29': 'needs invariants between sub-modelers for some of the obligations the reader collects (dereferences, indices, conversions) that the inference here does not find; '
           'the ones about loops that use up a sequence are part of C30, those on single stages part of the laws (an out-of-range access is an unequal value)',
}
