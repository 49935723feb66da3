#pragma once
#include "vf.h"
#include "rt.h"
#include "svd_stub.h"
#include <foundation/types.h>
using namespace Eigen;
typedef std::vector<std::pair<Eigen::Vector3d, Eigen::Vector3d>> Pairs;
static Vec3d g3(const double* p) { return Vec3d(p[0], p[1], p[2]); }
static MatX3d rows(const double* p, int n) {
  MatX3d m(n, 3);
  for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) m(i, j) = p[3 * i + j];
  return m;
}
static Mat3d m3(const double* p) {
  Mat3d m;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = p[3 * i + j];
  return m;
}
static double* put3(double* o, const Vec3d& v) { for (int i = 0; i < 3; ++i) *o++ = v[i]; return o; }
template <class M> static double* putm(double* o, const M& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) *o++ = m(i, j); return o; }
static Pairs pairs(const double* p, int n) {
  Pairs s(n);
  for (int i = 0; i < n; ++i) { s[i].first = g3(p + 6 * i); s[i].second = g3(p + 6 * i + 3); }
  return s;
}
