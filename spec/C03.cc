// The parameters and the predictor that an accepted reset installs.
#include "common.h"
//@ * budget=60000 t=60 ignore=^(?!.*(predictor_|stroke_model_params_|return)),saved_
namespace vp {
int a_install(StrokeModeler& m, const StrokeModelParams& par) { return static_cast<int>(m.Reset(par).code()); }
int b_install(StrokeModeler& m, const StrokeModelParams& par) {
  if (!ValidateStrokeModelParams(par).ok()) return 3;
  m.stroke_model_params_ = par;
  switch (par.prediction_params.index()) {
    case 0:
      m.predictor_ = std::make_unique<StrokeEndPredictor>(par.position_modeler_params, par.sampling_params);
      break;
    case 1:
      m.predictor_ = std::make_unique<KalmanPredictor>(std::get<KalmanPredictorParams>(par.prediction_params), par.sampling_params);
      break;
    default:
      m.predictor_ = nullptr;
  }
  return 0;
}
}  // namespace vp
