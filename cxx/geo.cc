#include "vf.h"
#include <geo/src/geo.cc>
static void put(double* o, const Vec3d& v) { for (int i = 0; i < 3; ++i) o[i] = v[i]; }
static void put(double* o, const Mat4d& m) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) o[4 * i + j] = m(i, j); }
VF(ecef) { put(out, cfg[0] ? geo::EcefFromLla(Vec3d(in[0], in[1], in[2])) : geo::EcefFromLla(in[0], in[1], in[2])); return 0; }
VF(lla) { put(out, cfg[0] ? geo::LlaFromEcef(Vec3d(in[0], in[1], in[2])) : geo::LlaFromEcef(in[0], in[1], in[2])); return 0; }
VF(lla_of_ecef) { put(out, geo::LlaFromEcef(geo::EcefFromLla(in[0], in[1], in[2]))); return 0; }
VF(topo_T) { put(out, cfg[0] ? geo::EcefFromTopocentricTransform(Vec3d(in[0], in[1], in[2])) : geo::EcefFromTopocentricTransform(in[0], in[1], in[2])); return 0; }
VF(topo_Tfd) { put(out, cfg[0] ? geo::EcefFromTopocentricTransformFiniteDiff(Vec3d(in[0], in[1], in[2])) : geo::EcefFromTopocentricTransformFiniteDiff(in[0], in[1], in[2])); return 0; }
VF(topo) {
  geo::TopocentricConverter c(in[3], in[4], in[5]);
  geo::TopocentricConverter cv(Vec3d(in[3], in[4], in[5]));
  Vec3d r;
  switch (cfg[0]) {
    case 0: r = geo::TopocentricFromLla(in[0], in[1], in[2], in[3], in[4], in[5]); break;
    case 1: r = geo::TopocentricFromLla(Vec3d(in[0], in[1], in[2]), Vec3d(in[3], in[4], in[5])); break;
    case 2: r = c.ToTopocentric(in[0], in[1], in[2]); break;
    default: r = cv.ToTopocentric(Vec3d(in[0], in[1], in[2])); break;
  }
  put(out, r);
  return 0;
}
VF(topo_inv) {
  geo::TopocentricConverter c(in[3], in[4], in[5]);
  geo::TopocentricConverter cv(Vec3d(in[3], in[4], in[5]));
  Vec3d r;
  switch (cfg[0]) {
    case 0: r = geo::LlaFromTopocentric(in[0], in[1], in[2], in[3], in[4], in[5]); break;
    case 1: r = geo::LlaFromTopocentric(Vec3d(in[0], in[1], in[2]), Vec3d(in[3], in[4], in[5])); break;
    case 2: r = c.ToLla(in[0], in[1], in[2]); break;
    default: r = cv.ToLla(Vec3d(in[0], in[1], in[2])); break;
  }
  put(out, r);
  return 0;
}
VF(gps_distance) { out[0] = geo::GpsDistance(Vec2d(in[0], in[1]), Vec2d(in[2], in[3])); return 0; }
VF(ref) { geo::TopocentricConverter c(in[0], in[1], in[2]); put(out, c.GetLlaRef()); return 0; }
