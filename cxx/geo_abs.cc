#include "geom.h"
#include <geometry/src/absolute_pose.cc>
#include <foundation/src/numeric.cc>
#include <foundation/src/newton_raphson.cc>
namespace geometry {}
using namespace geometry;
VF(rot_axis) { putm(out, RotationMatrixAroundAxis(in[0], in[1], g3(in + 2))); return 0; }
VF(skew) { putm(out, foundation::SkewMatrix(g3(in))); return 0; }
VF(closest_rot) { putm(out, foundation::ClosestRotationMatrix(m3(in))); return 0; }
// in: bearing, point pairs 6n; rotation 9
VF(trans_between) {
  const Pairs s = pairs(in, cfg[0]);
  put3(out, TranslationBetweenPoints(s.begin(), s.end(), m3(in + 6 * cfg[0])));
  return 0;
}
VF(known_rot) { put3(out, AbsolutePoseNPointsKnownRotation(rows(in, cfg[0]), rows(in + 3 * cfg[0], cfg[0]))); return 0; }
VF(abs_n) { putm(out, AbsolutePoseNPoints(rows(in, cfg[0]), rows(in + 3 * cfg[0], cfg[0]))); return 0; }
VF(abs_three) {
  const auto r = AbsolutePoseThreePoints(rows(in, 3), rows(in + 9, 3));
  *out++ = r.size();
  for (const auto& e : r) out = putm(out, e);
  return 0;
}
VF(quartic) {
  std::array<double, 5> c = {in[0], in[1], in[2], in[3], in[4]};
  std::array<double, 4> r{};
  out[0] = foundation::SolveQuartic(c, r);
  const auto q = foundation::RefineQuarticRoots(c, r);
  for (int i = 0; i < 4; ++i) { out[1 + i] = r[i]; out[5 + i] = q[i]; }
  return 0;
}
