// Contracts of Eigen's decompositions: in the IR the bodies of compute() are replaced by calls that a handler answers.
#pragma once
#include <Eigen/Eigen>
#ifndef VF_NATIVE
extern "C" void vf_svd(const double* a, long rows, long cols, double* u, double* s, double* v);
namespace Eigen {
template <>
inline JacobiSVD<Matrix3d, 2>& JacobiSVD<Matrix3d, 2>::compute(const Matrix3d& m, unsigned int) {
  vf_svd(m.data(), 3, 3, m_matrixU.data(), m_singularValues.data(), m_matrixV.data());
  m_isInitialized = true; m_computeFullU = m_computeFullV = true; m_nonzeroSingularValues = 3; m_rows = m_cols = m_diagSize = 3;
  return *this;
}
template <>
inline JacobiSVD<MatrixXd, 2>& JacobiSVD<MatrixXd, 2>::compute(const MatrixXd& m, unsigned int) {
  m_matrixV.resize(m.cols(), m.cols());
  m_singularValues.resize(m.cols());
  vf_svd(m.data(), m.rows(), m.cols(), nullptr, m_singularValues.data(), m_matrixV.data());
  m_isInitialized = true; m_computeFullV = true; m_nonzeroSingularValues = m.cols(); m_rows = m.rows(); m_cols = m.cols(); m_diagSize = m.cols();
  return *this;
}
template <>
inline JacobiSVD<Matrix<double, 9, 9>, 2>& JacobiSVD<Matrix<double, 9, 9>, 2>::compute(const Matrix<double, 9, 9>& m, unsigned int) {
  vf_svd(m.data(), 9, 9, nullptr, m_singularValues.data(), m_matrixV.data());
  m_isInitialized = true; m_computeFullV = true; m_nonzeroSingularValues = 9; m_rows = m_cols = m_diagSize = 9;
  return *this;
}
extern "C" void vf_eigen(const double* a, long n, double* vre, double* vim);
template <>
inline EigenSolver<MatrixXd>::EigenvectorsType EigenSolver<MatrixXd>::eigenvectors() const {
  const long n = m_eivec.cols();
  EigenvectorsType v(n, n);
  MatrixXd re(n, n), im(n, n);
  vf_eigen(m_eivec.data(), n, re.data(), im.data());
  for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) v(i, j) = std::complex<double>(re(i, j), im(i, j));
  return v;
}
template <>
template <>
inline EigenSolver<MatrixXd>& EigenSolver<MatrixXd>::compute<MatrixXd>(const EigenBase<MatrixXd>& m, bool) {
  m_eivec = m.derived();
  m_isInitialized = true; m_eigenvectorsOk = true; m_info = Success;
  return *this;
}
}  // namespace Eigen
#endif
