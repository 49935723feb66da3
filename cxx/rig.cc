#include "rt.h"
#include "pose.cc"
#include <geometry/src/camera.cc>
#include <foundation/src/newton_raphson.cc>
#include <map/src/rig.cc>
#include <map/src/shot.cc>
#include <map/src/observation.cc>
#include <map/src/landmark.cc>
using namespace map;
// in: instance pose 7, rig camera poses 2 x 7, argument pose 7, point 3
VF(rig_op) {
  const Camera cam = Camera::CreatePerspectiveCamera(1.0, 0.0, 0.0);
  RigInstance inst("instance");
  RigCamera c1(state(in + 7), "c1"), c2(state(in + 14), "c2");
  const Pose arg = state(in + 21);
  const Vec3d x = v3(in + 28);
  RigInstance elsewhere("elsewhere");
  RigCamera c3(state(in + 7), "c3");
  Shot s1("s1", &cam, cfg[1] > 1 ? &inst : &elsewhere, &c1), s2("s2", &cam, &inst, &c2), s3("s3", &cam, cfg[1] > 2 ? &inst : &elsewhere, &c3);
  inst.SetPose(state(in));
  switch (cfg[0]) {
    case 0: break;
    case 1: inst.UpdateInstancePoseWithShot("s2", arg); break;
    case 2: inst.UpdateRigCameraPose("c2", arg); break;
    case 3: inst.UpdateInstancePoseWithShot("s1", arg); break;
    default: break;
  }
  const Shot& cs2 = s2;
  double* o = out;
  dump(o, *s1.GetPose()); o += 38;
  dump(o, *s2.GetPose()); o += 38;
  dump(o, *cs2.GetPose()); o += 38;
  dump(o, inst.GetPose()); o += 38;
  dump(o, c2.pose); o += 38;
  o = put(o, s2.GetWorldToCam()); o = put(o, s2.GetCamToWorld());
  const Vec2d p = s2.Project(x);
  *o++ = p[0]; *o++ = p[1];
  put(o, s2.Bearing(Vec2d(in[28], in[29])));
  return 0;
}
// a shot of its own: construction, SetPose
VF(shot_op) {
  const Camera cam = Camera::CreatePerspectiveCamera(1.0, 0.0, 0.0);
  const Pose arg = state(in + 21);
  RigInstance inst("instance");
  RigCamera rc(Pose(), "c1");
  double* o = out;
  if (cfg[0] == 0) {
    Shot s("s", cam, state(in));
    dump(o, *s.GetPose()); o += 38;
    s.SetPose(arg);
    dump(o, *s.GetPose()); o += 38;
    dump(o, s.GetRigInstance()->GetPose()); o += 38;
    s.GetPose()->SetFromWorldToCamera(arg.world_to_cam_);
    dump(o, *s.GetPose());
  } else if (cfg[0] == 1) {
    Shot s("s", &cam, &inst, &rc, state(in));
    dump(o, *s.GetPose()); o += 38;
    s.SetPose(arg);
    dump(o, *s.GetPose()); o += 38;
    dump(o, inst.GetPose()); o += 38;
    s.GetPose()->SetFromWorldToCamera(arg.world_to_cam_);
    dump(o, *s.GetPose());
  }
  return 0;
}
// throws: 0 SetPose of a shot in a rig of several shots, 1 pose of a rig shot is immutable, 2 unknown shot, 3 unknown rig camera, 4 rig camera twice, 5 remove unknown
VF(rig_throw) {
  const Camera cam = Camera::CreatePerspectiveCamera(1.0, 0.0, 0.0);
  RigInstance inst("instance");
  RigCamera c1(Pose(), "c1"), c2(state(in), "c2");
  Shot s1("s1", &cam, &inst, &c1), s2("s2", &cam, &inst, &c2);
  const Pose arg = state(in + 7);
  out[0] = 0;
    switch (cfg[0]) {
      case 0: s2.SetPose(arg); break;
      case 1: s2.GetPose()->SetFromWorldToCamera(arg.world_to_cam_); break;
      case 2: inst.UpdateInstancePoseWithShot("nope", arg); break;
      case 3: inst.UpdateRigCameraPose("nope", arg); break;
      case 4: { Shot s3("s3", &cam, &inst, &c1); break; }
      case 5: inst.RemoveShot("nope"); break;
      case 6: s2.GetPose()->SetOrigin(v3(in)); break;
      case 7: s2.GetPose()->SetWorldToCamRotation(v3(in)); break;
      case 8: s1.SetPose(arg); break;
      default: break;
    }
  out[1] = inst.NumberOfShots();
  return 0;
}
