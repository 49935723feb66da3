#include "geom.h"
#include <geometry/src/essential.cc>
namespace geometry {}
using namespace geometry;
VF(epi_rows) {
  const int n = cfg[0];
  const Pairs s = pairs(in, n);
  Eigen::MatrixXd A(n, 9);
  EncodeEpipolarEquation(s.begin(), s.end(), &A);
  putm(out, A);
  return 0;
}
static const int MONO[20][3] = {{3, 0, 0}, {2, 1, 0}, {1, 2, 0}, {0, 3, 0}, {2, 0, 1}, {1, 1, 1}, {0, 2, 1}, {1, 0, 2}, {0, 1, 2}, {0, 0, 3}, {2, 0, 0}, {1, 1, 0}, {0, 2, 0}, {1, 0, 1}, {0, 1, 1}, {0, 0, 2}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, 0}};
// product of polynomials: in a (20), b (20); out 20
VF(poly) {
  Eigen::VectorXd a(20), b(20);
  for (int i = 0; i < 20; ++i) { a[i] = in[i]; b[i] = in[20 + i]; }
  const Eigen::VectorXd r = cfg[0] == 1 ? o1(a, b) : o2(a, b);
  for (int i = 0; i < 20; ++i) out[i] = r[i];
  return 0;
}
// in: basis 9 x 4; out M (10 x 20)
VF(five_poly) {
  Eigen::MatrixXd E(9, 4);
  for (int i = 0; i < 9; ++i) for (int j = 0; j < 4; ++j) E(i, j) = in[4 * i + j];
  putm(out, FivePointsPolynomialConstraints(E));
  return 0;
}
VF(gauss_jordan) {
  Eigen::MatrixXd M(10, 20);
  for (int i = 0; i < 10; ++i) for (int j = 0; j < 20; ++j) M(i, j) = in[20 * i + j];
  out[0] = FivePointsGaussJordan(&M);
  putm(out + 1, M);
  return 0;
}
VF(nullspace) {
  const Pairs s = pairs(in, cfg[0]);
  putm(out, FivePointsNullspaceBasis(s.begin(), s.end()));
  return 0;
}
// in: x1 3n, x2 3m
VF(five_points) {
  const auto r = EssentialFivePoints(rows(in, cfg[0]), rows(in + 3 * cfg[0], cfg[1]));
  *out++ = r.size();
  for (const auto& e : r) out = putm(out, e);
  return 0;
}
VF(n_points) {
  const auto r = EssentialNPoints(rows(in, cfg[0]), rows(in + 3 * cfg[0], cfg[1]));
  *out++ = r.size();
  for (const auto& e : r) out = putm(out, e);
  return 0;
}
VF(solve_ax0) {
  const int r = cfg[0], c = cfg[1];
  Eigen::MatrixXd A(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) A(i, j) = in[c * i + j];
  Eigen::VectorXd s;
  out[0] = foundation::SolveAX0(A, &s);
  for (int i = 0; i < s.size(); ++i) out[1 + i] = s[i];
  return 0;
}
