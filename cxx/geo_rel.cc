#include "geom.h"
#include <geometry/src/triangulation.cc>
#include <geometry/src/relative_pose.cc>
namespace geometry {}
using namespace geometry;
VF(rel_rot) { putm(out, RelativeRotationNPoints(rows(in, cfg[0]), rows(in + 3 * cfg[0], cfg[1]))); return 0; }
VF(rot_between) { const Pairs s = pairs(in, cfg[0]); putm(out, RotationBetweenPoints(s.begin(), s.end())); return 0; }
VF(sim_between) { const Pairs s = pairs(in, cfg[0]); putm(out, SimilarityBetweenPoints(s.begin(), s.end())); return 0; }
// in: essential 9, x1 3n, x2 3m
VF(rel_pose) { putm(out, RelativePoseFromEssential(m3(in), rows(in + 9, cfg[0]), rows(in + 9 + 3 * cfg[0], cfg[1]))); return 0; }
// in: pose 12, x1 3n, x2 3m; cfg n, m, iterations
VF(rel_refine) {
  Eigen::Matrix<double, 3, 4> p;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) p(i, j) = in[4 * i + j];
  putm(out, RelativePoseRefinement(p, rows(in + 12, cfg[0]), rows(in + 12 + 3 * cfg[0], cfg[1]), cfg[2]));
  return 0;
}
// residuals of the relative pose cost: in: parameters 6, pairs 6n; out MAX_ERRORS + 1
VF(rel_cost) {
  const Pairs s = pairs(in + 6, cfg[0]);
  RelativePoseCost<Pairs::const_iterator> cost(s.begin(), s.end());
  cost(in, out);
  return 0;
}
