#include "geom.h"
#include <geometry/src/triangulation.cc>
#ifndef VF_NATIVE
namespace ceres {
CostFunction::CostFunction() : num_residuals_(0) {}
CostFunction::~CostFunction() {}
}  // namespace ceres
#endif
#include "cams.h"
#include <geometry/src/covariance.cc>
namespace geometry {}
using namespace geometry;
VF(angle) { out[0] = AngleBetweenVectors(g3(in), g3(in + 3)); return 0; }
VF(mid_solve) { const int n = cfg[0]; put3(out, TriangulateBearingsMidpointSolve<double>(rows(in, n), rows(in + 3 * n, n))); return 0; }
VF(mid_two) {
  Eigen::Matrix<double, 2, 3> c = rows(in, 2), b = rows(in + 6, 2);
  const auto r = TriangulateTwoBearingsMidpointSolve<double>(c, b);
  out[0] = r.first;
  if (r.first) put3(out + 1, r.second);
  return 0;
}
// in: bearings1 3n, bearings2 3n, rotation 9, translation 3
VF(mid_many) {
  const int n = cfg[0];
  const auto r = TriangulateTwoBearingsMidpointMany(rows(in, n), rows(in + 3 * n, n), m3(in + 6 * n), g3(in + 6 * n + 9));
  out[0] = r.size();
  for (int i = 0; i < n; ++i) { out[1 + 4 * i] = r[i].first; if (r[i].first) put3(out + 2 + 4 * i, r[i].second); }
  return 0;
}
// in: centers 3n, bearings 3n, thresholds n, min_angle, min_depth; cfg n, number of thresholds
VF(tri_mid) {
  const int n = cfg[0];
  std::vector<double> t;
  for (int i = 0; i < cfg[1]; ++i) t.push_back(in[6 * n + i]);
  const auto r = TriangulateBearingsMidpoint(rows(in, n), rows(in + 3 * n, n), t, in[7 * n], in[7 * n + 1]);
  out[0] = r.first;
  if (r.first) put3(out + 1, r.second);
  return 0;
}
// in: Rts 12n (row major), bearings 3n, threshold, min_angle, min_depth
static std::vector<Mat34d> rts(const double* in, int n) {
  std::vector<Mat34d> v(n);
  for (int k = 0; k < n; ++k) for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) v[k](i, j) = in[12 * k + 4 * i + j];
  return v;
}
VF(tri_dlt) {
  const int n = cfg[0];
  const auto r = TriangulateBearingsDLT(rts(in, n), rows(in + 12 * n, n), in[15 * n], in[15 * n + 1], in[15 * n + 2]);
  out[0] = r.first;
  if (r.first) put3(out + 1, r.second);
  return 0;
}
VF(dlt_solve) {
  const int n = cfg[0];
  const Vec4d x = TriangulateBearingsDLTSolve(rows(in + 12 * n, n), rts(in, n));
  for (int i = 0; i < 4; ++i) out[i] = x[i];
  return 0;
}
// in: bearings1 3n, bearings2 3m, rotation 9, translation 3
VF(epi_angle) {
  const int n = cfg[0], m = cfg[1];
  putm(out, EpipolarAngleTwoBearingsMany(rows(in, n), rows(in + 3 * n, m), m3(in + 3 * (n + m)), g3(in + 3 * (n + m) + 9)));
  return 0;
}
// in: centers 3n, bearings 3n, point; out: residuals 3n, jacobian 9n, residuals without jacobian 3n
VF(bearing_cost) {
  const int n = cfg[0];
  const MatX3d c = rows(in, n), b = rows(in + 3 * n, n);
  BearingErrorCost cost(c, b);
  const double* params[] = {in + 6 * n};
  double* jacs[] = {out + 3 * n};
  cost.Evaluate(params, out, jacs);
  cost.Evaluate(params, out + 12 * n, nullptr);
  return 0;
}
VF(refine_point) {
  const int n = cfg[0];
  put3(out, PointRefinement(rows(in, n), rows(in + 3 * n, n), g3(in + 6 * n), cfg[1]));
  return 0;
}
// in: camera params (cams.h), pose (r 3, t 3 world to camera), observation 2, point 3; cfg type, number of parameters, number of observations
VF(point_cov) {
  const int np = cfg[1], n = cfg[2];
  std::vector<Camera> cams; std::vector<Pose> poses; std::vector<Vec2d> obs;
  const double* p = in;
  for (int k = 0; k < n; ++k) {
    cams.push_back(make(cfg[0], p)); p += np;
    poses.push_back(Pose(g3(p), g3(p + 3))); p += 6;
    obs.push_back(Vec2d(p[0], p[1])); p += 2;
  }
  const auto r = geometry::covariance::ComputePointInverseCovariance(cams, poses, obs, g3(p));
  out = putm(out, r.first);
  *out++ = r.second;
  if (n == 1) {
    const auto j = geometry::covariance::ComputeJacobianReprojectionError(cams[0], poses[0], obs[0], g3(p));
    out = putm(out, j.first);
    *out++ = j.second[0]; *out++ = j.second[1];
  }
  return 0;
}
