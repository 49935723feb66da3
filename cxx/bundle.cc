#include "rt.h"
#include "vf.h"
#include "ceres_stub.h"
#include "cams.h"
#include <bundle/src/bundle_adjuster.cc>
namespace B = bundle;
struct In {
  const double* p;
  double s() { return *p++; }
  Vec3d v3() { p += 3; return Vec3d(p[-3], p[-2], p[-1]); }
  Vec2d v2() { p += 2; return Vec2d(p[-2], p[-1]); }
  // camera to world rotation and translation
  geometry::Pose pose() {
    const Vec3d r = v3(), t = v3();
    geometry::Pose q;
    q.SetFromCameraToWorld(r, t);
    return q;
  }
  geometry::Camera cam(int t) { p += NP[t]; return make(t, p - NP[t]); }
};
struct Out {
  double* p;
  void s(double v) { *p++ = v; }
  template <class V> void v(const V& x) { for (int i = 0; i < x.size(); ++i) *p++ = x[i]; }
};
static void reset(double delta) {
  g_nb = g_np = g_solved = 0;
  g_delta = delta;
}
static void dump(Out& o) {
  o.s(g_nb);
  for (int k = 0; k < g_nb; ++k) {
    const VfBlock& b = g_blocks[k];
    o.s(b.ok); o.s(b.n); o.s(b.nres); o.s(b.loss); o.s(b.b);
    for (int i = 0; i < b.n; ++i) {
      VfParam* q = vf_param(b.p[i], b.sz[i]);
      o.s(b.sz[i]); o.s(q->fixed); o.s(q->lower); o.s(q->lo);
      for (int j = 0; j < b.sz[i]; ++j) o.s(b.val[i][j]);
    }
    for (int j = 0; j < b.nres; ++j) o.s(b.res[j]);
  }
}
struct PoseOut { static void put(Out& o, const geometry::Pose& p) { o.v(p.RotationCameraToWorldMin()); o.v(p.TranslationCameraToWorld()); } };
// rig camera r: 0 = fixed identity, 1 and 2: own pose, optimised
static const char* RC[3] = {"r0", "rA", "rB"};
static void scene(B::BundleAdjuster& ba, In& i, int type, int nshots, const int* rigs, bool fixed) {
  const geometry::Camera c = i.cam(type), prior = i.cam(type);
  ba.AddCamera("cam", c, prior, fixed);
  ba.AddRigCamera("r0", geometry::Pose(), geometry::Pose(), true);
  bool used[3] = {false, false, false};
  for (int k = 0; k < nshots; ++k) used[rigs[k]] = true;
  for (int k = 1; k < 3; ++k)
    if (used[k]) {
      const geometry::Pose p = i.pose(), q = i.pose();
      ba.AddRigCamera(RC[k], p, q, false);
    }
  static const char* S[3] = {"s1", "s2", "s3"};
  static const char* I[3] = {"i1", "i2", "i3"};
  for (int k = 0; k < nshots; ++k) {
    const geometry::Pose p = i.pose();
    std::unordered_map<std::string, std::string> cams, rcs;
    cams[S[k]] = "cam";
    rcs[S[k]] = RC[rigs[k]];
    ba.AddRigInstance(I[k], p, cams, rcs, fixed);
  }
}
static const char* LOSS[6] = {"", "TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss", "ArctanLoss"};
// cfg: camera type, rig of the shot, analytic, depth (0 none, 1 radial, 2 along the axis), loss
VF(reprojection) {
  In i{in};
  Out o{out};
  reset(i.s());
  B::BundleAdjuster ba;
  scene(ba, i, cfg[0], 1, cfg + 1, false);
  const Vec3d X = i.v3();
  const Vec2d obs = i.v2();
  const double sd = i.s(), depth = i.s(), dsd = i.s(), th = i.s();
  ba.AddPoint("p", X, false);
  ba.SetUseAnalyticDerivatives(cfg[2]);
  ba.SetPointProjectionLossFunction(LOSS[cfg[4]], th);
  std::optional<map::Depth> d;
  if (cfg[3]) d = map::Depth(depth, cfg[3] == 1, dsd);
  ba.AddPointProjectionObservation("s1", "p", obs, sd, d);
  ba.Run();
  dump(o);
  B::Point p = ba.GetPoint("p");
  o.v(p.GetValue());
  o.s(p.reprojection_errors.size());
  const VecXd e = p.reprojection_errors["s1"];
  o.s(e.size());
  o.v(e);
  PoseOut::put(o, ba.GetRigInstance("i1").GetValue());
  PoseOut::put(o, ba.GetRigCamera(RC[cfg[1]]).GetValue());
  o.v(ba.GetCamera("cam").GetParametersValues());
  return 0;
}
// two cameras, a rig instance of two shots and one of a single shot, two points; cfg: camera types, analytic, depth
VF(mixed) {
  In i{in};
  Out o{out};
  reset(i.s());
  B::BundleAdjuster ba;
  static const char* C[2] = {"camA", "camB"};
  for (int k = 0; k < 2; ++k) {
    const geometry::Camera c = i.cam(cfg[k]), prior = i.cam(cfg[k]);
    ba.AddCamera(C[k], c, prior, k == 1);
  }
  ba.AddRigCamera("r0", geometry::Pose(), geometry::Pose(), true);
  for (int k = 1; k < 3; ++k) {
    const geometry::Pose p = i.pose(), q = i.pose();
    ba.AddRigCamera(RC[k], p, q, false);
  }
  const geometry::Pose p1 = i.pose(), p2 = i.pose();
  ba.AddRigInstance("i1", p1, {{"s1", "camA"}, {"s2", "camB"}}, {{"s1", "rA"}, {"s2", "rB"}}, true);
  ba.AddRigInstance("i2", p2, {{"s3", "camA"}}, {{"s3", "r0"}}, false);
  const Vec3d X = i.v3(), Y = i.v3();
  ba.AddPoint("p", X, false);
  ba.AddPoint("q", Y, true);
  ba.SetUseAnalyticDerivatives(cfg[2]);
  ba.SetPointProjectionLossFunction("HuberLoss", i.s());
  static const char* S[4] = {"s1", "s2", "s2", "s3"};
  static const char* P[4] = {"p", "p", "q", "q"};
  for (int k = 0; k < 4; ++k) {
    const Vec2d obs = i.v2();
    const double sd = i.s(), depth = i.s(), dsd = i.s();
    std::optional<map::Depth> d;
    if (cfg[3] >> k & 1) d = map::Depth(depth, k & 1, dsd);
    ba.AddPointProjectionObservation(S[k], P[k], obs, sd, d);
  }
  ba.Run();
  dump(o);
  o.v(ba.GetPoint("p").GetValue());
  o.v(ba.GetPoint("q").GetValue());
  for (int k = 0; k < 4; ++k) {
    B::Point p = ba.GetPoint(P[k]);
    o.s(p.reprojection_errors.size());
    const VecXd e = p.reprojection_errors[S[k]];
    o.s(e.size());
    o.v(e);
  }
  PoseOut::put(o, ba.GetRigInstance("i1").GetValue());
  PoseOut::put(o, ba.GetRigInstance("i2").GetValue());
  for (int k = 0; k < 3; ++k) PoseOut::put(o, ba.GetRigCamera(RC[k]).GetValue());
  for (int k = 0; k < 2; ++k) o.v(ba.GetCamera(C[k]).GetParametersValues());
  return 0;
}
static void solved(Out& o, B::BundleAdjuster& ba, int nshots, const int* rigs) {
  static const char* I[3] = {"i1", "i2", "i3"};
  for (int k = 0; k < nshots; ++k) PoseOut::put(o, ba.GetRigInstance(I[k]).GetValue());
  for (int k = 0; k < nshots; ++k) PoseOut::put(o, ba.GetRigCamera(RC[rigs[k]]).GetValue());
}
static const char* SH[3] = {"s1", "s2", "s3"};
static const char* IN[3] = {"i1", "i2", "i3"};
// one constraint between the shots numbered q; again: the second one of the kind
static void constrain(B::BundleAdjuster& ba, In& i, int kind, int opt, const int* q, bool again) {
  const char *a = SH[q[0]], *b = SH[q[1]], *c = SH[q[2]];
  if (kind == 0) {
    const Vec3d r = i.v3(), t = i.v3();
    const double s = i.s(), rob = i.s();
    B::RelativeMotion rm(IN[q[0]], IN[q[1]], r, t, s, rob, opt & 4);
    MatXd S(7, 7);
    for (int a = 0; a < 7; ++a) for (int b = 0; b < 7; ++b) S(a, b) = i.s();
    rm.SetScaleMatrix(S);
    if (!again) ba.SetRelativeMotionLossFunction("HuberLoss", i.s());
    ba.AddRelativeMotion(rm);
  } else if (kind == 1) {
    B::RelativeRotation rr(a, b, i.v3());
    Mat3d S;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) S(a, b) = i.s();
    rr.SetScaleMatrix(S);
    if (!again) ba.SetRelativeMotionLossFunction("SoftLOneLoss", i.s());
    ba.AddRelativeRotation(rr);
  } else if (kind == 2) {
    const double m = i.s();
    ba.AddCommonPosition(a, b, m, i.s());
  } else if (kind == 3) {
    const Vec3d u = i.v3();
    ba.AddAbsoluteUpVector(a, u, i.s());
  } else if (kind == 4) {
    const double u = i.s(), sd = i.s();
    if (opt == 0) ba.AddAbsolutePan(a, u, sd);
    if (opt == 1) ba.AddAbsoluteTilt(a, u, sd);
    if (opt == 2) ba.AddAbsoluteRoll(a, u, sd);
  } else if (kind == 5) {
    std::vector<double> h(12);
    for (int k = 0; k < 12; ++k) h[k] = i.s();
    const double x = i.s(), y = i.s(), res = i.s(), sd = i.s();
    ba.AddHeatmap(again ? "g" : "h", h, again ? 3 : 4, res);
    ba.AddAbsolutePositionHeatmap(a, again ? "g" : "h", x, y, sd);
  } else if (kind == 6) {
    const double al = i.s(), p = i.s(), r = i.s();
    ba.AddLinearMotion(a, b, c, al, p, r);
  } else if (kind == 9) {
    const Vec3d x = i.v3(), q = i.v3(), s = i.v3();
    ba.AddPoint(again ? "q" : "p", x, opt & 2);
    ba.AddPointPrior(again ? "q" : "p", q, s, opt & 1);
  }
}
// cfg: kind, rig of the three shots, option, whether there are two constraints of the kind
VF(constraint) {
  In i{in};
  Out o{out};
  reset(i.s());
  const int kind = cfg[0], opt = cfg[4], twice = cfg[5];
  const int n = kind == 6 || twice ? 3 : kind < 3 || kind == 7 || kind == 8 ? 2 : 1;
  B::BundleAdjuster ba;
  scene(ba, i, 0, n, cfg + 1, false);
  if (kind == 0) {  // relative motion; opt: 0 one reconstruction (shared scale), 1 two reconstructions, 2 own scale per instance, 3: one with a fixed scale; +4 observed scale
    const double si = i.s(), sj = i.s();
    ba.AddReconstruction("recA", (opt & 3) == 3);
    ba.AddReconstruction("recB", false);
    ba.AddReconstructionInstance("recA", si, "i1");
    ba.AddReconstructionInstance((opt & 3) == 1 ? "recB" : "recA", sj, "i2");
    if (twice) ba.AddReconstructionInstance("recA", i.s(), "i3");
    ba.SetScaleSharing("recA", (opt & 3) != 2);
  } else if (kind == 7) {
    ba.SetGaugeFixShots("s1", "s2");
  } else if (kind == 8) {  // opt: scale groups equal, bias set, std adjusted
    if (opt & 2) {
      const Vec3d r = i.v3(), t = i.v3();
      const double s = i.s();
      geometry::Similarity b(r, t, s);
      ba.SetCameraBias("cam", b);
    }
    ba.SetAdjustAbsolutePositionStd(opt & 4);
    const Vec3d p1 = i.v3(), d1 = i.v3(), p2 = i.v3(), d2 = i.v3();
    ba.AddRigInstancePositionPrior("i1", p1, d1, "ga");
    ba.AddRigInstancePositionPrior("i2", p2, d2, opt & 1 ? "ga" : "gb");
  }
  const int first[3] = {0, 1, 2}, second[3] = {2, 0, 1};
  constrain(ba, i, kind, opt, first, false);
  if (twice) constrain(ba, i, kind, opt, second, true);
  ba.Run();
  dump(o);
  solved(o, ba, n, cfg + 1);
  if (kind == 0) {
    o.s(ba.GetReconstruction("recA").GetScale("i1"));
    o.s(ba.GetReconstruction((opt & 3) == 1 ? "recB" : "recA").GetScale("i2"));
    if (twice) o.s(ba.GetReconstruction("recA").GetScale("i3"));
  }
  if (kind == 8) {
    const geometry::Similarity b = ba.GetBias("cam");
    o.v(b.Rotation()); o.v(b.Translation()); o.s(b.Scale());
  }
  if (kind == 9) o.v(ba.GetPoint("p").GetValue());
  if (kind == 9 && twice) o.v(ba.GetPoint("q").GetValue());
  return 0;
}
// prior standard deviations of camera and rig parameters; cfg: camera type, set before or after the camera is added
VF(priors) {
  In i{in};
  Out o{out};
  reset(i.s());
  double sd[9];
  for (int k = 0; k < 9; ++k) sd[k] = i.s();
  const double rt = i.s(), rr = i.s();
  B::BundleAdjuster ba;
  auto set = [&]() {
    ba.SetInternalParametersPriorSD(sd[0], sd[1], sd[2], sd[3], sd[4], sd[5], sd[6], sd[7], sd[8]);
    ba.SetRigParametersPriorSD(rt, rr);
  };
  const int rig = 1;
  if (cfg[1] == 0) set();
  scene(ba, i, cfg[0], 1, &rig, cfg[2]);
  if (cfg[1] == 1) set();
  ba.SetMaxNumIterations(37);
  ba.SetNumThreads(3);
  ba.SetLinearSolverType("DENSE_QR");
  ba.Run();
  dump(o);
  solved(o, ba, 1, &rig);
  o.v(ba.GetCamera("cam").GetParametersValues());
  o.s(g_iterations); o.s(g_threads); o.s(g_solver); o.s(g_solved);
  return 0;
}
VF(functors) {
  In i{in};
  Out o{out};
  switch (cfg[0]) {
    case 0: o.s(B::DiffBetweenAngles(in[0], in[1])); break;
    case 1: B::StdDeviationConstraint()(in, out); break;
    case 2: { const B::ParameterBarrier b(in[0], in[1], 1); b(in + 1, out); break; }
    case 3: { const Vec3d a = i.v3(), b = i.v3(); o.v(B::MultRotations<double>(a, b)); break; }
    case 4: { const Vec3d a = i.v3(), b = i.v3(), c = i.v3(); o.v(B::MultRotations<double>(a, b, c)); break; }
    case 5: B::WorldToLocal(in, in + 1, in + 7, out); break;
    case 6: { const B::RelativeDepthError e(in[15], in[16], cfg[1], cfg[2]); e(in, in + 6, in + 12, out); break; }
    case 7: { const B::TranslationPriorError e(in[12]); e(in, in + 6, out); break; }
    case 8: {  // bundle data: value -> parameters -> value
      const Vec3d r = i.v3(), t = i.v3();
      B::Similarity s("s", geometry::Similarity(r, t, in[6]));
      o.v(s.GetValueData());
      const geometry::Similarity v = s.GetValue();
      o.v(v.Rotation()); o.v(v.Translation()); o.s(v.Scale());
      break;
    }
    case 9: {
      B::Pose p("p", i.pose(), cfg[1] ? B::Pose::WORLD_TO_CAM : B::Pose::CAM_TO_WORLD);
      o.v(p.GetValueData());
      break;
    }
    case 10: ceres::AngleAxisRotatePoint(in, in + 3, out); break;
    case 11: {  // in place, as the cost functions use it
      out[0] = in[0]; out[1] = in[1]; out[2] = in[2];
      geometry::PoseFunctor::Forward(out, in + 3, out);
      break;
    }
    case 12: ceres::QuaternionToAngleAxis(in, out); break;
    default: break;
  }
  return 0;
}
// analytic cost functions; in: camera, rig instance, rig camera, point, observation, deviation; cfg: type, rig, requested blocks (-1: residuals only)
template <class E, int R, int C> static void analytic(const double* in, double* out, const int* cfg) {
  const double* rest = in + C + 15;
  const E e(static_cast<geometry::ProjectionType>(cfg[3]), Vec2d(rest[0], rest[1]), rest[2], cfg[1]);
  const double* p[4] = {in, in + C, in + C + 6, in + C + 12};
  double *j0 = out + R, *j1 = j0 + R * C, *j2 = j1 + R * 6, *j3 = j2 + R * 6;
  double* J[4] = {cfg[2] & 1 ? j0 : nullptr, cfg[2] & 2 ? j1 : nullptr, cfg[2] & 4 ? j2 : nullptr, cfg[2] & 8 ? j3 : nullptr};
  for (int k = 0; k < R * (C + 15); ++k) out[R + k] = 7.0;
  e.Evaluate(p, out, cfg[2] < 0 ? nullptr : J);
}
VF(jacobians) {
  using namespace geometry;
  switch (cfg[0]) {
    case 0: analytic<B::ReprojectionError2DAnalytic<3>, 2, 3>(in, out, cfg); break;
    case 1: analytic<B::ReprojectionError2DAnalytic<9>, 2, 9>(in, out, cfg); break;
    case 2: analytic<B::ReprojectionError2DAnalytic<3>, 2, 3>(in, out, cfg); break;
    case 3: analytic<B::ReprojectionError2DAnalytic<8>, 2, 8>(in, out, cfg); break;
    case 4: analytic<B::ReprojectionError2DAnalytic<12>, 2, 12>(in, out, cfg); break;
    case 5: analytic<B::ReprojectionError2DAnalytic<16>, 2, 16>(in, out, cfg); break;
    case 6: analytic<B::ReprojectionError3DAnalytic, 3, 1>(in, out, cfg); break;
    case 7: analytic<B::ReprojectionError2DAnalytic<4>, 2, 4>(in, out, cfg); break;
    case 8: analytic<B::ReprojectionError2DAnalytic<6>, 2, 6>(in, out, cfg); break;
    default: analytic<B::ReprojectionError2DAnalytic<5>, 2, 5>(in, out, cfg); break;
  }
  return 0;
}
