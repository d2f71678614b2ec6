From 5a0595944e29d990b246c2f97f97860dca7ba80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:25 +0000
Subject: [PATCH 01/10] fix: don't touch model state when a move input is
 rejected

ProcessMoveEvent updated the wobble smoother and the stylus state modeler
before checking whether the input had to be rejected, so a rejected move
changed the results of later inputs.
---
 ink_stroke_modeler/stroke_modeler.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e7d6e23..c97051f 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -285,6 +285,16 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
         "Received move event while no stroke is in-progress");
   }
 
+  // This must come before any of the sub-modelers are updated, so that a
+  // rejected input doesn't change the state of the model.
+  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
+      position_modeler_.CurrentState(), last_input_->input, input,
+      stroke_model_params_->sampling_params,
+      stroke_model_params_->position_modeler_params);
+  if (!n_steps.ok()) {
+    return n_steps.status();
+  }
+
   Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);
   stylus_state_modeler_.Update(corrected_position, input.time,
                                {
@@ -293,13 +303,6 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
                                    .orientation = input.orientation,
                                });
 
-  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
-      position_modeler_.CurrentState(), last_input_->input, input,
-      stroke_model_params_->sampling_params,
-      stroke_model_params_->position_modeler_params);
-  if (!n_steps.ok()) {
-    return n_steps.status();
-  }
   tip_state_buffer_.clear();
   tip_state_buffer_.reserve(*n_steps);
   position_modeler_.UpdateAlongLinearPath(
-- 
2.43.0


From 389824def92dff9c064dd97a90226c0f360adf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:25 +0000
Subject: [PATCH 02/10] fix: drop the stale saved predictor when saving without
 a predictor

Save() kept the predictor of an earlier Save() when prediction had since been
disabled, and Restore() then brought it back.
---
 ink_stroke_modeler/stroke_modeler.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index c97051f..1aad08f 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -326,9 +326,7 @@ void StrokeModeler::Save() {
   stylus_state_modeler_.Save();
   loop_contraction_mitigation_modeler_.Save();
   saved_last_input_ = last_input_;
-  if (predictor_ != nullptr) {
-    saved_predictor_ = predictor_->MakeCopy();
-  }
+  saved_predictor_ = predictor_ != nullptr ? predictor_->MakeCopy() : nullptr;
   save_active_ = true;
 }
 
-- 
2.43.0


From daf53fa33b04c0f328b05e08c98701e64a20ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:25 +0000
Subject: [PATCH 03/10] fix: don't restore a state saved during an earlier
 stroke

A state saved in the middle of a stroke stayed active when that stroke ended
and the next one began; Restore() then mixed the old stroke's last input and
predictor with the new stroke's tip state.
---
 ink_stroke_modeler/stroke_modeler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 1aad08f..e39eb37 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -192,6 +192,10 @@ absl::Status StrokeModeler::ProcessDownEvent(const Input &input,
         "Received down event while stroke is in-progress");
   }
 
+  // A state that was saved during an earlier stroke can't be restored into this
+  // one.
+  if (saved_last_input_) save_active_ = false;
+
   // Note that many of the sub-modelers require some knowledge about the stroke
   // (e.g. start position, input type) when resetting, and as such are reset
   // here instead of in Reset().
-- 
2.43.0


From 92bf4df981de7ac29ee7816bf0197a136f61c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:25 +0000
Subject: [PATCH 04/10] fix: normalize angles without looping

Subtracting 2*pi repeatedly never ends for an infinite orientation, or for one
too large for the subtraction to change it.
---
 ink_stroke_modeler/internal/utils.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index c636e09..d1545d4 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -18,6 +18,7 @@
 #define INK_STROKE_MODELER_INTERNAL_UTILS_H_
 
 #include <algorithm>
+#include <cmath>
 #include <optional>
 
 #include "ink_stroke_modeler/internal/internal_types.h"
@@ -66,8 +67,10 @@ inline float InverseLerp(float a, float b, float value) {
 // interval [0, 2π). All angles are measured in radians.
 inline float InterpAngle(float start, float end, float interp_amount) {
   auto normalize_angle = [](float angle) {
-    while (angle < 0) angle += 2 * kPi;
-    while (angle > 2 * kPi) angle -= 2 * kPi;
+    if (angle > 2 * kPi || angle < 0) {
+      angle = std::fmod(angle, 2 * kPi);
+      if (angle < 0) angle += 2 * kPi;
+    }
     return angle;
   };
 
-- 
2.43.0


From 6ca86d7a2584f807179b23e31f414838c3e289e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:25 +0000
Subject: [PATCH 05/10] fix: reject non-finite loop mitigation and linearity
 parameters

Every comparison with NaN is false, so NaN passed the range checks.
---
 ink_stroke_modeler/params.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ink_stroke_modeler/params.cc b/ink_stroke_modeler/params.cc
index d1ca809..3df091d 100644
--- a/ink_stroke_modeler/params.cc
+++ b/ink_stroke_modeler/params.cc
@@ -48,6 +48,12 @@ const Duration kMaxSamplingWindow = Duration(10000);
 absl::Status ValidateLoopContractionMitigationParameters(
     const PositionModelerParams::LoopContractionMitigationParameters& params) {
   if (!params.is_enabled) return absl::OkStatus();
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_lower_bound,
+      "LoopContractionMitigationParameters::speed_lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_upper_bound,
+      "LoopContractionMitigationParameters::speed_upper_bound"));
   if (params.speed_lower_bound > params.speed_upper_bound ||
       params.speed_lower_bound < 0) {
     return absl::InvalidArgumentError(absl::Substitute(
@@ -59,6 +65,14 @@ absl::Status ValidateLoopContractionMitigationParameters(
         params.speed_lower_bound, params.speed_upper_bound));
   }
 
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_lower_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_upper_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "upper_bound"));
   if (params.interpolation_strength_at_speed_lower_bound <
           params.interpolation_strength_at_speed_upper_bound ||
       params.interpolation_strength_at_speed_lower_bound > 1 ||
@@ -82,6 +96,9 @@ absl::Status ValidateLoopContractionMitigationParameters(
         kMaxDiscreteSamples, params.min_discrete_speed_samples));
   }
 
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.min_speed_sampling_window.Value(),
+      "LoopContractionMitigationParameters::min_speed_sampling_window"));
   if (params.min_speed_sampling_window <= Duration(0) ||
       params.min_speed_sampling_window > kMaxSamplingWindow) {
     return absl::InvalidArgumentError(absl::Substitute(
@@ -223,6 +240,10 @@ absl::Status ValidateKalmanPredictorParams(
   RETURN_IF_ERROR(ValidateGreaterThanZero(
       confidence_params.max_linear_deviation,
       "KalmanPredictorParams::ConfidenceParams::max_linear_deviation"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      confidence_params.baseline_linearity_confidence,
+      "KalmanPredictorParams::ConfidenceParams::baseline_linearity_"
+      "confidence"));
   if (confidence_params.baseline_linearity_confidence < 0 ||
       confidence_params.baseline_linearity_confidence > 1) {
     return absl::InvalidArgumentError(absl::Substitute(
-- 
2.43.0


From 97c8c7d7219f977962587cb0b99d51c22cdce6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:18 +0000
Subject: [PATCH 06/10] fix: limit Kalman predictions to max_outputs_per_call

The number of points in both parts of the prediction was unbounded, although
the limit is documented to apply to Predict; the conversion to int was
undefined for a distant estimate or a long prediction interval.
---
 .../internal/prediction/kalman_predictor.cc   | 28 ++++++++++++-------
 .../internal/prediction/kalman_predictor.h    |  2 +-
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 6bad195..509fcf0 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -117,12 +117,16 @@ void KalmanPredictor::ConstructPrediction(
 
   Duration sample_dt{1. / sampling_params_.min_output_rate};
   ConstructCubicConnector(last_state, *estimated_state, predictor_params_,
-                          sample_dt, &prediction);
+                          sample_dt, sampling_params_.max_outputs_per_call,
+                          &prediction);
   auto start_time =
       prediction.empty() ? last_state.time : prediction.back().time;
-  ConstructCubicPrediction(*estimated_state, predictor_params_, start_time,
-                           sample_dt, NumberOfPointsToPredict(*estimated_state),
-                           &prediction);
+  int max_samples = sampling_params_.max_outputs_per_call -
+                    static_cast<int>(prediction.size());
+  ConstructCubicPrediction(
+      *estimated_state, predictor_params_, start_time, sample_dt,
+      std::min(NumberOfPointsToPredict(*estimated_state), max_samples),
+      &prediction);
 }
 
 void KalmanPredictor::ConstructCubicPrediction(
@@ -146,7 +150,7 @@ void KalmanPredictor::ConstructCubicPrediction(
 
 void KalmanPredictor::ConstructCubicConnector(
     const TipState &last_tip_state, const State &estimated_state,
-    const KalmanPredictorParams &params, Duration sample_dt,
+    const KalmanPredictorParams &params, Duration sample_dt, int max_points,
     std::vector<TipState> *output) {
   // Estimate how long it will take for the tip to travel from its last position
   // to the estimated position, based on the start and end velocities. We define
@@ -161,10 +165,13 @@ void KalmanPredictor::ConstructCubicConnector(
       std::max(max_velocity_at_ends, params.min_catchup_velocity)};
 
   // Determine how many samples this will give us, ensuring that there's always
-  // at least one. Then, pick a duration that's a multiple of the sample dt.
-  int n_points = std::fmax(std::ceil(static_cast<float>(
-                               target_duration.Value() / sample_dt.Value())),
-                           1.f);
+  // at least one, and no more than the limit. Then, pick a duration that's a
+  // multiple of the sample dt.
+  int n_points =
+      std::fmin(std::fmax(std::ceil(static_cast<float>(
+                              target_duration.Value() / sample_dt.Value())),
+                          1.f),
+                static_cast<double>(max_points));
   Duration duration = n_points * sample_dt;
 
   // We want to construct a cubic curve connecting the last tip state and the
@@ -279,7 +286,8 @@ int KalmanPredictor::NumberOfPointsToPredict(
 
   auto confidence =
       sample_ratio * normalized_error * normalized_distance * linearity;
-  return std::fmax(0.f, std::ceil(target_number * confidence));
+  return std::fmin(std::fmax(0.f, std::ceil(target_number * confidence)),
+                   static_cast<double>(sampling_params_.max_outputs_per_call));
 }
 
 }  // namespace stroke_model
diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.h b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
index 76048ef..729b6a8 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.h
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
@@ -81,7 +81,7 @@ class KalmanPredictor : public InputPredictor {
   static void ConstructCubicConnector(const TipState &last_tip_state,
                                       const State &estimated_state,
                                       const KalmanPredictorParams &params,
-                                      Duration sample_dt,
+                                      Duration sample_dt, int max_points,
                                       std::vector<TipState> *output);
 
   static void ConstructCubicPrediction(const State &estimated_state,
-- 
2.43.0


From 661a1e489a051084355a183731d439ef81c2c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:18 +0000
Subject: [PATCH 07/10] fix: count end-of-stroke outputs towards
 max_outputs_per_call

An up event, or a stroke end prediction, could generate up to
end_of_stroke_max_iterations outputs beyond the limit.
---
 .../internal/prediction/stroke_end_predictor.cc      |  9 +++++++--
 ink_stroke_modeler/stroke_modeler.cc                 | 12 ++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
index aedde93..7276b77 100644
--- a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/internal/prediction/stroke_end_predictor.h"
 
+#include <algorithm>
 #include <iterator>
 #include <optional>
 #include <vector>
@@ -37,12 +38,16 @@ void StrokeEndPredictor::ConstructPrediction(
     return;
   }
 
-  prediction.reserve(sampling_params_.end_of_stroke_max_iterations);
+  // Each iteration adds at most one output.
+  const int max_iterations =
+      std::min(sampling_params_.end_of_stroke_max_iterations,
+               sampling_params_.max_outputs_per_call);
+  prediction.reserve(max_iterations);
   PositionModeler modeler;
   modeler.Reset(last_state, position_modeler_params_);
   modeler.ModelEndOfStroke(*last_position_,
                            Duration(1. / sampling_params_.min_output_rate),
-                           sampling_params_.end_of_stroke_max_iterations,
+                           max_iterations,
                            sampling_params_.end_of_stroke_stopping_distance,
                            std::back_inserter(prediction));
 }
diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e39eb37..7db51fe 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/stroke_modeler.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <iterator>
@@ -247,10 +248,13 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
   if (!n_steps.ok()) {
     return n_steps.status();
   }
+  // Each iteration adds at most one output, so this keeps the total within
+  // max_outputs_per_call.
+  const int max_iterations = std::min(
+      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      stroke_model_params_->sampling_params.max_outputs_per_call - *n_steps);
   tip_state_buffer_.clear();
-  tip_state_buffer_.reserve(
-      static_cast<size_t>(*n_steps) +
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations);
+  tip_state_buffer_.reserve(static_cast<size_t>(*n_steps) + max_iterations);
   position_modeler_.UpdateAlongLinearPath(
       last_input_->corrected_position, last_input_->input.time, input.position,
       input.time, *n_steps, std::back_inserter(tip_state_buffer_));
@@ -258,7 +262,7 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
   position_modeler_.ModelEndOfStroke(
       input.position,
       Duration(1. / stroke_model_params_->sampling_params.min_output_rate),
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      max_iterations,
       stroke_model_params_->sampling_params.end_of_stroke_stopping_distance,
       std::back_inserter(tip_state_buffer_));
 
-- 
2.43.0


From db0f9aa9faf4e26e66f20db1d364d46ec6850c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:18 +0000
Subject: [PATCH 08/10] fix: don't predict from samples that span no time

With identical timestamps, or a single one, the average time delta is zero, and
the velocity, acceleration and jerk were divided by it.
---
 ink_stroke_modeler/internal/prediction/kalman_predictor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 509fcf0..d448d23 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -92,6 +92,9 @@ std::optional<KalmanPredictor::State> KalmanPredictor::GetEstimatedState()
   auto dt = static_cast<float>(
                 (sample_times_.back() - sample_times_.front()).Value()) /
             sample_times_.size();
+  // We can't estimate derivatives if the samples span no time.
+  if (dt <= 0) return std::nullopt;
+
   auto dt_squared = dt * dt;
   auto dt_cubed = dt_squared * dt;
   estimated_state.velocity /= dt;
-- 
2.43.0


From 1d5821f592a19afa0ae035aceee49749fcb1fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:47 +0000
Subject: [PATCH 09/10] fix: always output at least one result for a move event

A move event with the same timestamp as the previous input generated no
results, although a successful Update is documented to add at least one.
---
 ink_stroke_modeler/stroke_modeler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 7db51fe..6d73d5b 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -318,6 +318,12 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
       corrected_position, input.time, *n_steps,
       std::back_inserter(tip_state_buffer_));
 
+  if (tip_state_buffer_.empty()) {
+    // If we haven't generated any new states, add the current state. This can
+    // happen if the TMove has the same timestamp as the previous input.
+    tip_state_buffer_.push_back(position_modeler_.CurrentState());
+  }
+
   if (predictor_ != nullptr) {
     predictor_->Update(corrected_position, input.time);
   }
-- 
2.43.0


From 49a92cb3b9ee02065734e8c72db6c94dc7f2b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:27 +0000
Subject: [PATCH 10/10] fix: keep the minimum speed sampling window

LoopContractionMitigationModeler dropped the oldest sample once the span of the
samples exceeded min_speed_sampling_window, leaving less than the documented
minimum.
---
 .../internal/loop_contraction_mitigation_modeler.cc  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.cc b/ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.cc
index 7eb06db..5537f2f 100644
--- a/ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.cc
+++ b/ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.cc
@@ -37,11 +37,13 @@ float LoopContractionMitigationModeler::Update(Vec2 velocity, Time time) {
   // The moving average acts as a low-pass signal filter, removing
   // high-frequency fluctuations in the velocity.
   speed_samples_.push_back({.speed = velocity.Magnitude(), .time = time});
-  while (!speed_samples_.empty() &&
-         speed_samples_.back().time - speed_samples_.front().time >
-             params_.min_speed_sampling_window &&
-         static_cast<int>(speed_samples_.size()) >
-             params_.min_discrete_speed_samples) {
+  // We compare the time of the newest and second-oldest samples, so that dropping
+  // the oldest doesn't take us below `min_speed_sampling_window`. Since
+  // `min_discrete_speed_samples` > 0, there are at least two samples.
+  while (static_cast<int>(speed_samples_.size()) >
+             params_.min_discrete_speed_samples &&
+         speed_samples_.back().time - speed_samples_[1].time >=
+             params_.min_speed_sampling_window) {
     speed_samples_.pop_front();
   }
   return GetInterpolationValue();
-- 
2.43.0

