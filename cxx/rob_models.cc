// The functions that run robust estimation (RunEstimation itself is under contract in rob_est.cc).
#include "geom.h"
#include <robust/instanciations.h>
#ifdef VF_NATIVE
#include <geometry/src/triangulation.cc>
#include <geometry/src/relative_pose.cc>
#include <geometry/src/essential.cc>
#include <geometry/src/absolute_pose.cc>
#include <foundation/src/numeric.cc>
#include <foundation/src/newton_raphson.cc>
#include <robust/src/absolute_pose_known_rotation_model.cc>
#include <robust/src/absolute_pose_model.cc>
#include <robust/src/line_model.cc>
#include <robust/src/relative_pose_model.cc>
#include <robust/src/relative_rotation_model.cc>
#else
#define VF_RUN(M) template <> ScoreInfo<M::Type> RunEstimation<M>(const std::vector<M::Data>&, double, const RobustEstimatorParams&, const RansacType&);
VF_RUN(Line)
VF_RUN(EssentialMatrix<EpipolarGeodesic>)
VF_RUN(EssentialMatrix<EpipolarSymmetric>)
VF_RUN(RelativePose)
VF_RUN(RelativeRotation)
VF_RUN(AbsolutePose)
VF_RUN(AbsolutePoseKnownRotation)
VF_RUN(Similarity)
#endif
#include <robust/src/instanciations.cc>
// in: threshold, probability, rows of the first n x d, rows of the second m x d; cfg kind, n, m, type, iterations, refinements, reduction
// out: score, count, refined model (16), inlier flags n
template <class T> void put(const ScoreInfo<T>& r, double* out, int n) {
  out[0] = r.score;
#ifdef VF_NATIVE
  out[1] = r.inliers_indices.size();
  int k = 2;
  for (int i = 0; i < r.lo_model.rows(); ++i) for (int j = 0; j < r.lo_model.cols(); ++j) out[k++] = r.lo_model(i, j);
  for (int i = 0; i < n; ++i) out[18 + i] = 0;
  for (int i : r.inliers_indices) out[18 + i] = 1;
#endif
}
VF(ransac) {
  RobustEstimatorParams p;
  p.probability = in[1];
  p.iterations = cfg[4];
  p.use_local_optimization = cfg[5] > 0;
  p.local_optimization_iterations = cfg[5];
  p.use_iteration_reduction = cfg[6];
  const RansacType t = RansacType(cfg[3]);
  const int n = cfg[1], m = cfg[2];
  if (cfg[0] == 0) {
    Eigen::Matrix<double, -1, 2> x(n, 2);
    for (int i = 0; i < n; ++i) { x(i, 0) = in[2 + 2 * i]; x(i, 1) = in[3 + 2 * i]; }
    put(robust::RANSACLine(x, in[0], p, t), out, n);
    return 0;
  }
  const auto a = rows(in + 2, n), b = rows(in + 2 + 3 * n, m);
  switch (cfg[0]) {
    case 1: put(robust::RANSACEssential(a, b, in[0], p, t), out, n); break;
    case 3: put(robust::RANSACRelativePose(a, b, in[0], p, t), out, n); break;
    case 4: put(robust::RANSACRelativeRotation(a, b, in[0], p, t), out, n); break;
    case 5: put(robust::RANSACAbsolutePose(a, b, in[0], p, t), out, n); break;
    case 6: put(robust::RANSACAbsolutePoseKnownRotation(a, b, in[0], p, t), out, n); break;
    case 7: put(robust::RANSACSimilarity(a, b, in[0], p, t), out, n); break;
  }
  return 0;
}
