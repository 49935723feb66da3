// The errors of the models of robust estimation.
#include "geom.h"
#include <geometry/src/triangulation.cc>
#include <robust/instanciations.h>
#include <robust/src/absolute_pose_known_rotation_model.cc>
#include <robust/src/absolute_pose_model.cc>
#include <robust/src/line_model.cc>
#include <robust/src/relative_pose_model.cc>
#include <robust/src/relative_rotation_model.cc>
template <class D> struct DataOf;
template <> struct DataOf<Eigen::Vector2d> { static const int N = 2; static Eigen::Vector2d get(const double* p) { return Eigen::Vector2d(p[0], p[1]); } };
template <> struct DataOf<std::pair<Eigen::Vector3d, Eigen::Vector3d>> {
  static const int N = 6;
  static std::pair<Eigen::Vector3d, Eigen::Vector3d> get(const double* p) { return {g3(p), g3(p + 3)}; }
};
// in: model (row by row), samples; cfg n
template <class M> void eval(const double* in, double* out, int n) {
  typename M::Type m;
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = *in++;
  using D = DataOf<typename M::Data>;
  std::vector<typename M::Data> s;
  for (int i = 0; i < n; ++i) s.push_back(D::get(in + D::N * i));
  for (const auto& e : M::EvaluateModel(m, s.begin(), s.end())) *out++ = e.norm();
}
VF(evaluate) {
  switch (cfg[0]) {
    case 0: eval<Line>(in, out, cfg[1]); break;
    case 1: eval<EssentialMatrix<EpipolarGeodesic>>(in, out, cfg[1]); break;
    case 2: eval<EssentialMatrix<EpipolarSymmetric>>(in, out, cfg[1]); break;
    case 3: eval<RelativePose>(in, out, cfg[1]); break;
    case 4: eval<RelativeRotation>(in, out, cfg[1]); break;
    case 5: eval<AbsolutePose>(in, out, cfg[1]); break;
    case 6: eval<AbsolutePoseKnownRotation>(in, out, cfg[1]); break;
    case 7: eval<Similarity>(in, out, cfg[1]); break;
  }
  return 0;
}
template <class M> void adapt(const double* in, double* out) {
  out[0] = M::ThresholdAdapter(in[0]);
  out[1] = M::MINIMAL_SAMPLES;
}
VF(adapter) {
  switch (cfg[0]) {
    case 0: adapt<Line>(in, out); break;
    case 1: adapt<EssentialMatrix<EpipolarGeodesic>>(in, out); break;
    case 2: adapt<EssentialMatrix<EpipolarSymmetric>>(in, out); break;
    case 3: adapt<RelativePose>(in, out); break;
    case 4: adapt<RelativeRotation>(in, out); break;
    case 5: adapt<AbsolutePose>(in, out); break;
    case 6: adapt<AbsolutePoseKnownRotation>(in, out); break;
    case 7: adapt<Similarity>(in, out); break;
  }
  return 0;
}
// in: two points; out: number of models, slope, offset
VF(line) {
  const std::vector<Eigen::Vector2d> s = {Eigen::Vector2d(in[0], in[1]), Eigen::Vector2d(in[2], in[3])};
  Eigen::Vector2d m[1];
  out[0] = cfg[0] ? Line::EstimateNonMinimal(s.begin(), s.end(), m) : Line::Estimate(s.begin(), s.end(), m);
  out[1] = m[0][0];
  out[2] = m[0][1];
  return 0;
}
