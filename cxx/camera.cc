#include "vf.h"
#include "cams.h"
VF(project) {
  const Camera c = make(cfg[0], in + 3);
  Vec2d r;
  if (cfg[1] == 0) r = c.Project(Vec3d(in[0], in[1], in[2]));
  else {
    MatX3d m(3, 3);
    m << 0.1, 0.2, 1.0, in[0], in[1], in[2], 0.3, -0.1, 2.0;
    MatX2d q = c.ProjectMany(m);
    r = q.row(1);
  }
  out[0] = r[0]; out[1] = r[1];
  return 0;
}
VF(bearing) {
  const Camera c = make(cfg[0], in + 2);
  Vec3d r;
  if (cfg[1] == 0) r = c.Bearing(Vec2d(in[0], in[1]));
  else {
    MatX2d m(3, 2);
    m << 0.01, 0.02, in[0], in[1], 0.03, -0.01;
    MatX3d q = c.BearingsMany(m);
    r = q.row(1);
  }
  for (int i = 0; i < 3; ++i) out[i] = r[i];
  return 0;
}
// Bearing(Project(point))
VF(roundtrip) {
  const Camera c = make(cfg[0], in + 3);
  const Vec3d b = c.Bearing(c.Project(Vec3d(in[0], in[1], in[2])));
  for (int i = 0; i < 3; ++i) out[i] = b[i];
  return 0;
}
// Project(Bearing(pixel)) and norm of the bearing
VF(roundtrip2) {
  const Camera c = make(cfg[0], in + 2);
  const Vec3d b = c.Bearing(Vec2d(in[0], in[1]));
  const Vec2d p = c.Project(b);
  out[0] = p[0]; out[1] = p[1]; out[2] = b.squaredNorm();
  return 0;
}
template <class P> static void pfb(const double* in, double* out) {
  double p[2];
  P::Forward(in, in + 3, p);
  P::Backward(p, in + 3, out);
}
VF(proj_inv) {
  switch (cfg[0]) {
    case 0: pfb<PerspectiveProjection>(in, out); break;
    case 1: pfb<FisheyeProjection>(in, out); break;
    case 2: pfb<DualProjection>(in, out); break;
    default: pfb<SphericalProjection>(in, out); break;
  }
  return 0;
}
template <class P> static void pbf(const double* in, double* out) {
  double p[3];
  P::Backward(in, in + 2, p);
  P::Forward(p, in + 2, out);
  out[2] = p[0] * p[0] + p[1] * p[1] + p[2] * p[2];
}
VF(proj_inv2) {
  switch (cfg[0]) {
    case 0: pbf<PerspectiveProjection>(in, out); break;
    case 1: pbf<FisheyeProjection>(in, out); break;
    default: pbf<SphericalProjection>(in, out); break;
  }
  return 0;
}
template <class D> static void dfb(const double* in, double* out) {
  double p[2];
  D::Forward(in, in + 2, p);
  D::Backward(p, in + 2, out);
}
VF(disto_inv) {
  switch (cfg[0]) {
    case 0: dfb<Disto2>(in, out); break;
    case 1: dfb<Disto24>(in, out); break;
    case 2: dfb<Disto2468>(in, out); break;
    case 3: dfb<Disto62>(in, out); break;
    case 4: dfb<Disto624>(in, out); break;
    case 5: dfb<DistoBrown>(in, out); break;
    case 6: dfb<Affine>(in, out); break;
    case 7: dfb<UniformScale>(in, out); break;
    default: dfb<Identity>(in, out); break;
  }
  return 0;
}
// The systems handed to NewtonRaphson: value and derivative
VF(newton_fn) {
  const double* k = in + 3;
  if (cfg[0] <= 2 || cfg[0] == 6) {
    double f, d;
    if (cfg[0] == 0) { Disto2::DistoEval<double> e{in[1], k[0]}; f = e(in[0]); d = e.derivative(in[0]); }
    else if (cfg[0] == 1) { Disto24::DistoEval<double> e{in[1], k[0], k[1]}; f = e(in[0]); d = e.derivative(in[0]); }
    else if (cfg[0] == 2) { Disto2468::DistoEval<double> e{in[1], k[0], k[1], k[2], k[3]}; f = e(in[0]); d = e.derivative(in[0]); }
    else { DualProjection::ThetaEval<double> e{1, in[1], k[0]}; f = e(in[0]); d = e.derivative(in[0]); }
    out[0] = f; out[1] = d;
  } else {
    k = in + 4;
    const Vec2d x(in[0], in[1]), t(in[2], in[3]);
    Vec2d f; Mat2d d;
    if (cfg[0] == 3) { Disto62::DistoEval<double> e{t, k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]}; f = e(x); d = e.derivative(x); }
    else if (cfg[0] == 4) { Disto624::DistoEval<double> e{t, k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8], k[9], k[10], k[11]}; f = e(x); d = e.derivative(x); }
    else { DistoBrown::DistoEval<double> e{t, k[0], k[1], k[2], k[3], k[4]}; f = e(x); d = e.derivative(x); }
    out[0] = f[0]; out[1] = f[1]; out[2] = d(0, 0); out[3] = d(0, 1); out[4] = d(1, 0); out[5] = d(1, 1);
  }
  return 0;
}
// One step of NewtonRaphson on an arbitrary 1-D / 2-D system
struct F1 { double f, d; double operator()(double) const { return f; } double derivative(double) const { return d; } };
struct F2 { Vec2d f; Mat2d d; Vec2d operator()(const Vec2d&) const { return f; } Mat2d derivative(const Vec2d&) const { return d; } };
VF(newton_step) {
  if (cfg[0] == 0) out[0] = foundation::NewtonRaphson<F1, 1, 1, foundation::ManualDiff<F1, 1, 1>>(F1{in[1], in[2]}, in[0], 1, 0.0);
  else {
    F2 f; f.f = Vec2d(in[2], in[3]); f.d << in[4], in[5], in[6], in[7];
    const Vec2d r = foundation::NewtonRaphson<F2, 2, 2, foundation::ManualDiff<F2, 2, 2>>(f, Vec2d(in[0], in[1]), 1, 0.0);
    out[0] = r[0]; out[1] = r[1];
  }
  return 0;
}
VF(params) {
  Camera c = make(cfg[0], in);
  const auto t = c.GetParametersTypes();
  const VecXd v = c.GetParametersValues();
  int n = 0;
  out[n++] = int(c.GetProjectionType());
  out[n++] = t.size();
  for (int i = 0; i < int(t.size()); ++i) {
    out[n++] = int(t[i]);
    out[n++] = v[i];
    out[n++] = c.GetParameterValue(t[i]);
  }
  // set one parameter: that one and only that one changes
  if (NP[cfg[0]]) {
    c.SetParameterValue(t[cfg[1]], in[NP[cfg[0]]]);
    const VecXd w = c.GetParametersValues();
    for (int i = 0; i < int(t.size()); ++i) out[n++] = w[i];
  }
  return 0;
}
VF(kmatrix) {
  const Camera c = make(cfg[0], in);
  const Mat3d k = c.GetProjectionMatrix(), s = c.GetProjectionMatrixScaled(cfg[1], cfg[2]);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { out[3 * i + j] = k(i, j); out[9 + 3 * i + j] = s(i, j); }
  return 0;
}
VF(pixels) {
  Camera c = Camera::CreateSphericalCamera();
  c.width = cfg[1]; c.height = cfg[2];
  const Vec2d p(in[0], in[1]);
  MatX2d m(2, 2); m << 0.25, 0.5, in[0], in[1];
  Vec2d n, q;
  switch (cfg[0]) {
    case 0: n = c.PixelToNormalizedCoordinates(p); q = c.NormalizedToPixelCoordinates(p); break;
    case 1: n = Camera::PixelToNormalizedCoordinates(p, cfg[1], cfg[2]); q = Camera::NormalizedToPixelCoordinates(p, cfg[1], cfg[2]); break;
    case 2: n = c.PixelToNormalizedCoordinatesMany(m).row(1); q = c.NormalizedToPixelCoordinatesMany(m).row(1); break;
    default: n = Camera::PixelToNormalizedCoordinatesMany(m, cfg[1], cfg[2]).row(1); q = Camera::NormalizedToPixelCoordinatesMany(m, cfg[1], cfg[2]).row(1); break;
  }
  out[0] = n[0]; out[1] = n[1]; out[2] = q[0]; out[3] = q[1];
  return 0;
}
VF(mapping) {
  const Camera f = make(cfg[0], in), t = make(cfg[1], in + NP[cfg[0]]);
  const auto m = ComputeCameraMapping(f, t, 4, 3);
  int n = 0;
  for (int v = 0; v < 3; ++v) for (int u = 0; u < 4; ++u) {
    const Vec2d e = f.Project(t.Bearing(Vec2d((u - 2.0) / 4, (v - 1.5) / 4)));
    out[n++] = m.first(v, u); out[n++] = 4 * e[0] + 2.0;
    out[n++] = m.second(v, u); out[n++] = 4 * e[1] + 1.5;
  }
  return 0;
}

// ---- derivatives. in: point, parameters in storage order
template <bool DP> struct Deriv {
  template <class TYPE, class T> static void Apply(const T* p, const T* k, T* o, T* j) { TYPE::template ForwardDerivatives<T, DP>(p, k, o, j); }
};
VF(cam_deriv) {
  if (cfg[1]) Dispatch<ProjectDerivativesFunction>(static_cast<ProjectionType>(cfg[0]), in, in + 3, out, out + 2);
  else Dispatch<Deriv<false>>(static_cast<ProjectionType>(cfg[0]), in, in + 3, out, out + 2);
  return 0;
}
VF(cam_fwd) { Dispatch<ProjectFunction>(static_cast<ProjectionType>(cfg[0]), in, in + 3, out); return 0; }
VF(cam_pose_deriv) {
  const auto t = static_cast<ProjectionType>(cfg[0]);
  switch (cfg[1]) {
    case 0: Dispatch<ProjectPoseDerivatives>(t, in, in + 3, out, out + 2); break;
    case 1: Dispatch<ProjectPosePointDerivatives>(t, in, in + 3, out, out + 2); break;
    case 2: Dispatch<ProjectRigPoseDerivatives>(t, in, in + 3, out, out + 2); break;
    case 3: PoseNormalizedDerivatives::Apply<PerspectiveCamera, double>(in, in + 3, out, out + 3); break;
    default: RigPoseNormalizedDerivatives::Apply<PerspectiveCamera, double>(in, in + 3, out, out + 3); break;
  }
  return 0;
}
template <class F> static void fd(const double* in, double* out, bool dp) {
  const double* k = in + F::InSize;
  if (dp) F::template ForwardDerivatives<double, true>(in, k, out, out + F::OutSize);
  else F::template ForwardDerivatives<double, false>(in, k, out, out + F::OutSize);
}
VF(fn_deriv) {
  const bool d = cfg[1];
  switch (cfg[0]) {
    case 0: fd<PerspectiveProjection>(in, out, d); break;
    case 1: fd<FisheyeProjection>(in, out, d); break;
    case 2: fd<DualProjection>(in, out, d); break;
    case 3: fd<SphericalProjection>(in, out, d); break;
    case 4: fd<Disto2>(in, out, d); break;
    case 5: fd<Disto24>(in, out, d); break;
    case 6: fd<Disto2468>(in, out, d); break;
    case 7: fd<Disto62>(in, out, d); break;
    case 8: fd<Disto624>(in, out, d); break;
    case 9: fd<DistoBrown>(in, out, d); break;
    case 10: fd<Affine>(in, out, d); break;
    case 11: fd<UniformScale>(in, out, d); break;
    case 12: fd<Identity>(in, out, d); break;
    case 13: fd<PoseFunctor>(in, out, d); break;
    default: fd<Normalize>(in, out, d); break;
  }
  return 0;
}
VF(rotvec) {
  const Mat3d R = VectorToRotationMatrix(Vec3d(in[0], in[1], in[2]));
  const Vec3d v = RotationMatrixToVector(R);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) out[3 * i + j] = R(i, j);
  for (int i = 0; i < 3; ++i) out[9 + i] = v[i];
  return 0;
}
