#include "vf.h"
#include <geometry/pose.h>
#include <geometry/similarity.h>
using namespace geometry;
static Vec3d v3(const double* p) { return Vec3d(p[0], p[1], p[2]); }
// rotation matrix of the quaternion q / |q|
static Mat3d rq(const double* q) {
  const double w = q[0], x = q[1], y = q[2], z = q[3], n = w * w + x * x + y * y + z * z;
  Mat3d R;
  R << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x), 2 * (x * z - w * y),
      2 * (y * z + w * x), w * w - x * x - y * y + z * z;
  return R / n;
}
static Mat4d m4(const Mat3d& R, const Vec3d& t) {
  Mat4d T = Mat4d::Identity();
  for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) T(i, j) = R(i, j); T(i, 3) = t[i]; }
  return T;
}
// an arbitrary consistent pose (the representation invariant), in: q, t
static Pose state(const double* p) {
  Pose r;
  const Mat3d R = rq(p);
  const Vec3d t = v3(p + 4);
  Vec3d o;
  for (int i = 0; i < 3; ++i) o[i] = -(R(0, i) * t[0] + R(1, i) * t[1] + R(2, i) * t[2]);
  Mat3d Rt;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) Rt(i, j) = R(j, i);
  r.world_to_cam_ = m4(R, t);
  r.cam_to_world_ = m4(Rt, o);
  r.r_min_cam_to_world_ = Vec3d(1e3, 2e3, 3e3);
  r.r_min_world_to_cam_ = Vec3d(4e3, 5e3, 6e3);
#ifdef VF_NATIVE
  r.r_min_cam_to_world_ = RotationMatrixToVector(Rt);
  r.r_min_world_to_cam_ = -r.r_min_cam_to_world_;
#endif
  return r;
}
static double* put(double* o, const Mat4d& m) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) *o++ = m(i, j); return o; }
static double* put(double* o, const Mat3d& m) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) *o++ = m(i, j); return o; }
static double* put(double* o, const Mat34d& m) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) *o++ = m(i, j); return o; }
static double* put(double* o, const Vec3d& v) { for (int i = 0; i < 3; ++i) *o++ = v[i]; return o; }
// 16 + 16 + 3 + 3
static void dump(double* o, const Pose& p) { o = put(o, p.world_to_cam_); o = put(o, p.cam_to_world_); o = put(o, p.r_min_world_to_cam_); put(o, p.r_min_cam_to_world_); }
// in: state (7), argument (7 : quaternion or rotation vector in the first 3, translation)
VF(pose_op) {
  Pose p = state(in);
  const double* a = in + 7;
  const Mat3d R = rq(a);
  const Vec3d r = v3(a), t = v3(a + 4);
  switch (cfg[0]) {
    case 0: p = Pose(R, t); break;
    case 1: p = Pose(r, t); break;
    case 2: p = Pose(); break;
    case 3: p.SetFromWorldToCamera(m4(R, t)); break;
    case 4: p.SetFromCameraToWorld(m4(R, t)); break;
    case 5: p.SetFromWorldToCamera(R, t); break;
    case 6: p.SetFromCameraToWorld(R, t); break;
    case 7: p.SetFromWorldToCamera(r, t); break;
    case 8: p.SetFromCameraToWorld(r, t); break;
    case 9: p.SetWorldToCamRotation(r); break;
    case 10: p.SetWorldToCamRotationMatrix(R); break;
    case 11: p.SetWorldToCamTranslation(t); break;
    case 12: p.SetOrigin(t); break;
    case 13: p = p.Compose(state(a)); break;
    case 14: p = p.RelativeTo(state(a)); break;
    case 15: p = p.Inverse(); break;
    case 16: p = Pose(R); break;
    case 17: p = Pose(r); break;
    default: break;
  }
  dump(out, p);
  return 0;
}
// getters on an arbitrary state (all fields free): in: world_to_cam 16, cam_to_world 16, r_min 3, r_min_cw 3, point 3
VF(pose_get) {
  Pose p;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { p.world_to_cam_(i, j) = in[4 * i + j]; p.cam_to_world_(i, j) = in[16 + 4 * i + j]; }
  p.r_min_world_to_cam_ = v3(in + 32);
  p.r_min_cam_to_world_ = v3(in + 35);
  const Vec3d x = v3(in + 38);
  double* o = out;
  o = put(o, p.WorldToCamera()); o = put(o, p.CameraToWorld()); o = put(o, p.WorldToCameraRt()); o = put(o, p.CameraToWorldRt());
  o = put(o, p.RotationWorldToCamera()); o = put(o, p.RotationCameraToWorld()); o = put(o, p.RotationWorldToCameraMin()); o = put(o, p.RotationCameraToWorldMin());
  o = put(o, p.TranslationWorldToCamera()); o = put(o, p.TranslationCameraToWorld()); o = put(o, p.GetOrigin());
  o = put(o, p.TransformWorldToCamera(x)); o = put(o, p.TransformCameraToWorld(x));
  MatX3d m(2, 3);
  m.row(0) = x; m.row(1) = 2.0 * x;
  const MatX3d a = p.TransformWorldToCameraMany(m), b = p.TransformCameraToWorldMany(m);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { out[0 + 101 + i * 3 + j] = a(i, j); out[107 + i * 3 + j] = b(i, j); }
  return 0;
}
// in: q t s, point, q' t' s'
static Similarity sim(const double* p) {
  Similarity s;
  s.Rt_ = state(p);
  s.scale_ = p[7];
  return s;
}
VF(sim_op) {
  Similarity s = sim(in);
  const double* a = in + 11;
  const Vec3d x = v3(in + 8);
  switch (cfg[0]) {
    case 0: break;
    case 1: s.SetRotation(v3(a)); break;
    case 2: s.SetTranslation(v3(a + 4)); break;
    case 3: s.SetScale(a[7]); break;
    case 4: s = Similarity(rq(a), v3(a + 4), a[7]); break;
    case 5: s = Similarity(v3(a), v3(a + 4), a[7]); break;
    default: break;
  }
  double* o = out;
  o = put(o, s.RotationMatrix()); o = put(o, s.Translation()); *o++ = s.Scale();
  o = put(o, s.Transform(x));
  dump(o, s.Rt_);
  return 0;
}
// Inverse: the constructor takes the rotation vector
VF(sim_inv) {
  const Similarity s = sim(in), i = s.Inverse();
  const Vec3d x = v3(in + 8);
  double* o = put(out, i.Transform(s.Transform(x)));
  put(o, s.Transform(i.Transform(x)));
  return 0;
}
VF(rotvec) {  // rotation vector of a rotation matrix and back
  const Mat3d R = rq(in);
  const Vec3d v = RotationMatrixToVector(R);
  double* o = put(out, R);
  o = put(o, v);
  put(o, VectorToRotationMatrix(v));
  return 0;
}
VF(vecrot) { put(out, VectorToRotationMatrix(v3(in))); return 0; }
VF(vecrotvec) { put(out, RotationMatrixToVector(VectorToRotationMatrix(v3(in)))); return 0; }
