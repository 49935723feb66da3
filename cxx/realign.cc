// RealignMaps: shots, rig instances, cameras and points of a map follow those of another one.
#include "rt.h"
#include "vf.h"
#include "pose.cc"
#include <geo/src/geo.cc>
#include <geometry/src/camera.cc>
#include <foundation/src/newton_raphson.cc>
#include <map/src/rig.cc>
#include <map/src/shot.cc>
#include <map/src/observation.cc>
#include <map/src/landmark.cc>
#include <map/src/dataviews.cc>
#include <map/src/map.cc>
#include <map/src/tracks_manager.cc>
#include <sfm/src/retriangulation.cc>
using namespace map;
static const char* kS[] = {"S0", "S1", "S2", "S3"};
static const char* kI[] = {"I0", "I1", "I2", "I3"};
static const char* kL[] = {"L0", "L1", "L2"};
// in: reference 3, rig camera shift 3, instance poses 4 x (rotation matrix, centre), focals 2, scales 4
static Pose of(const double* p) {
  Mat3d R, Rt;
  Vec3d o(p[9], p[10], p[11]), t;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) R(i, j) = Rt(j, i) = p[3 * i + j];
  for (int i = 0; i < 3; ++i) t[i] = -(R(i, 0) * o[0] + R(i, 1) * o[1] + R(i, 2) * o[2]);
  Pose r;
  r.world_to_cam_ = m4(R, t);
  r.cam_to_world_ = m4(Rt, o);
  return r;
}
static void fill(Map& m, const double* in, int shots, const int* inst, int merge) {
  m.SetTopocentricConverter(in[0], in[1], in[2]);
  for (int c = 0; c < 2; ++c) {
    Camera cam = Camera::CreatePerspectiveCamera(in[54 + c], in[56 + c], 0.25);
    cam.id = c ? "C1" : "C0";
    m.CreateCamera(cam);
  }
  m.CreateRigCamera(RigCamera(Pose(), "R0"));
  m.CreateRigCamera(RigCamera(Pose(Vec3d(0, 0, 0), v3(in + 3)), "R1"));
  for (int i = 0; i < 4; ++i) m.CreateRigInstance(kI[i]);
  for (int s = 0; s < 4; ++s)
    if (shots >> s & 1) {
      bool second = false;
      for (int q = 0; q < s; ++q) second = second || inst[q] == inst[s];
      Shot& h = m.CreateShot(kS[s], s % 2 ? "C1" : "C0", second ? "R1" : "R0", kI[inst[s]]);
      h.scale = in[56 + s];
      h.merge_cc = merge + s;
    }
  for (int i = 0; i < 4; ++i) m.GetRigInstance(kI[i]).SetPose(of(in + 6 + 12 * i));
}
// cfg: shots of from, of to, instance of each shot (4), update points, observing shots of each landmark (3)
// in: from 60, to 60, points 9
VF(realign) {
  Map from, to;
  fill(from, in, cfg[0], cfg + 2, 10);
  fill(to, in + 60, cfg[1], cfg + 2, 20);
  for (int l = 0; l < 3; ++l) {
    to.CreateLandmark(kL[l], v3(in + 120 + 3 * l));
    for (int s = 0; s < 4; ++s)
      if (cfg[7 + l] >> s & 1) to.AddObservation(kS[s], kL[l], Observation(0, 0, 1, 0, 0, 0, l));
  }
  sfm::retriangulation::RealignMaps(from, to, cfg[6]);
  double* o = put(out, geo::TopocentricFromLla(v3(in), v3(in + 60)));
  for (int s = 0; s < 4; ++s) {
    const bool has = to.HasShot(kS[s]);
    *o++ = has;
    if (!has) continue;
    const Shot& h = to.GetShot(kS[s]);
    o = put(o, h.GetPose()->WorldToCamera());
    *o++ = h.scale;
    *o++ = h.merge_cc;
    *o++ = h.GetCamera() == &to.GetCamera(s % 2 ? "C1" : "C0");
    *o++ = h.GetLandmarkObservations().size();
  }
  for (int c = 0; c < 2; ++c) {
    const Camera& cam = to.GetCamera(c ? "C1" : "C0");
    *o++ = cam.GetParameterValue(Camera::Parameters::Focal);
    *o++ = cam.GetParameterValue(Camera::Parameters::K1);
    *o++ = cam.GetParameterValue(Camera::Parameters::K2);
  }
  for (int i = 0; i < 4; ++i) {
    o = put(o, to.GetRigInstance(kI[i]).GetPose().WorldToCamera());
    o = put(o, to.GetRigInstance(kI[i]).GetPose().CameraToWorld());
    *o++ = to.GetRigInstance(kI[i]).NumberOfShots();
  }
  for (int l = 0; l < 3; ++l) {
    o = put(o, to.GetLandmark(kL[l]).GetGlobalPos());
    *o++ = to.GetLandmark(kL[l]).NumberOfObservations();
  }
  // the other map is left alone
  for (int i = 0; i < 4; ++i) o = put(o, from.GetRigInstance(kI[i]).GetPose().WorldToCamera());
  *o++ = from.NumberOfShots();
  return o - out;
}
