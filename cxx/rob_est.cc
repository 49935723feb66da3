// Robust estimation, generic in the model and the scoring: the model and scoring below stand for any.
#include "vf.h"
#include "rt.h"
#include <cstring>
#include <cstdint>
#include <stdexcept>
#include <robust/robust_estimator.h>
extern "C" {
int vf_models(int kind, const double* samples, int n, double* ids);                        // estimates models from samples (0 minimal, 1 not)
double vf_error(double model, double sample, int j);                                       // error of a sample under a model
int vf_score(const double* errors, int n, double* score, int* inliers);                    // score of a set of errors
double vf_adapt(double threshold);
}
#ifdef VF_NATIVE
static uint64_t h_(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; return x ^ (x >> 33); }
static double u_(uint64_t x) { return double(h_(x) >> 11) / 9007199254740992.0; }
static uint64_t b_(double d) { uint64_t r; std::memcpy(&r, &d, 8); return r; }
static std::vector<double> LOG;
extern "C" int vf_models(int kind, const double* s, int n, double* ids) {
  uint64_t k = 17 + kind;
  for (int i = 0; i < n; ++i) k = h_(k ^ b_(s[i])) + 11;
  const int m = int(3 * u_(k));
  for (int i = 0; i < m; ++i) ids[i] = u_(k + 5 + i);
  return m;
}
extern "C" double vf_error(double m, double s, int) { return u_(b_(m) * 31 + b_(s)); }
extern "C" int vf_score(const double*, int, double*, int*) { return 0; }
extern "C" double vf_adapt(double t) { return t * t; }
#endif
struct Err { double v; double norm() const { return v; } };
struct Dbl {
  using Type = double;
  using Data = double;
  static const int MINIMAL_SAMPLES = 2;
  static const int MAX_MODELS = 2;
  static double ThresholdAdapter(double t) { return vf_adapt(t); }
  template <class IT> static int Estimate(IT b, IT e, Type* m) { return vf_models(0, &*b, e - b, m); }
  template <class IT> static int EstimateNonMinimal(IT b, IT e, Type* m) { return vf_models(1, &*b, e - b, m); }
  template <class IT> static std::vector<Err> EvaluateModel(double m, IT b, IT e) {
    std::vector<Err> r;
    for (IT i = b; i != e; ++i) r.push_back(Err{vf_error(m, *i, i - b)});
    return r;
  }
};
const int Dbl::MINIMAL_SAMPLES;
struct AnyScoring {
  template <class IT, class T> ScoreInfo<T> Score(IT b, IT e, const ScoreInfo<T>&) const {
    ScoreInfo<T> s;
    int idx[8];
    const int k = vf_score(&b->v, e - b, &s.score, idx);
    s.inliers_indices.assign(idx, idx + k);
    return s;
  }
};
static void put(double* out, const ScoreInfo<double>& s) {
  *out++ = s.score;
  *out++ = s.model;
  *out++ = s.lo_model;
  *out++ = s.inliers_indices.size();
  for (int i : s.inliers_indices) *out++ = i;
}
static RobustEstimatorParams params(const int* cfg, double probability) {
  RobustEstimatorParams p;
  p.iterations = cfg[0];
  p.use_local_optimization = cfg[1] > 0;
  p.local_optimization_iterations = cfg[1];
  p.use_iteration_reduction = cfg[2];
  p.probability = probability;
  return p;
}
// in: samples n; cfg iterations, local optimisations, iteration reduction, n
VF(estimate) {
  AnyScoring s;
  put(out, Estimate<AnyScoring, Dbl>(std::vector<double>(in, in + cfg[3]), s, params(cfg, 0.99)));
  return 0;
}
// in: threshold, probability, samples n; cfg iterations, local optimisations, iteration reduction, n, type
VF(run) {
  put(out, RunEstimation<Dbl>(std::vector<double>(in + 2, in + 2 + cfg[3]), in[0], params(cfg, in[1]), RansacType(cfg[4])));
  return 0;
}
// the same, with the errors of every sample under the model handed back, and the scores of all models that could have been estimated
#ifdef VF_NATIVE
VF(run_errors) {
  const int n = cfg[3];
  const auto r = RunEstimation<Dbl>(std::vector<double>(in + 2, in + 2 + n), in[0], params(cfg, in[1]), RansacType(cfg[4]));
  for (int i = 0; i < n + 4; ++i) out[n + i] = 0;
  put(out + n, r);
  for (int i = 0; i < n; ++i) out[i] = vf_error(r.lo_model, in[2 + i], i);
  return 0;
}
#else
VF(run_errors) { return 0; }
#endif
VF(should_stop) {
  RobustEstimatorParams p;
  p.use_iteration_reduction = cfg[0];
  p.probability = in[0];
  ScoreInfo<double> s;
  s.inliers_indices.resize(cfg[1]);
  out[0] = ShouldStop<Dbl>(p, s, cfg[2], cfg[3]);
  return 0;
}
// in: threshold, errors n; cfg kind, n
VF(score) {
  const int n = cfg[1];
  std::vector<Err> e;
  for (int i = 0; i < n; ++i) e.push_back(Err{in[1 + i]});
  ScoreInfo<double> best, r;
  if (cfg[0] == 0) r = RansacScoring(in[0]).Score(e.begin(), e.end(), best);
  if (cfg[0] == 1) r = MSacScoring(in[0]).Score(e.begin(), e.end(), best);
  if (cfg[0] == 2) r = LMedSScoring(in[0]).Score(e.begin(), e.end(), best);
  *out++ = r.score;
  *out++ = r.inliers_indices.size();
  for (int i : r.inliers_indices) *out++ = i;
  return 0;
}
// in: samples n; cfg size, n
VF(sample) {
  RandomSamplesGenerator<std::mt19937> g(cfg[2]);
  const auto s = g.GetRandomSamples<Dbl>(std::vector<double>(in, in + cfg[1]), cfg[0]);
  *out++ = s.size();
  for (double d : s) *out++ = d;
  return 0;
}
