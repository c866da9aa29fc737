// Matrix generators, in long double, with known spectral structure.
#ifndef VERIF_MAT_H
#define VERIF_MAT_H
#include "pbt.h"

namespace mat {
typedef long double LD;

// A plain dense matrix: the oracle does not use Eigen, which is what the code under test is made of.
template<class T>
struct Dense {
  int r_ = 0, c_ = 0;
  std::vector<T> d;
  Dense() {}
  Dense(int r, int c) : r_(r), c_(c), d((size_t) r * c) {}
  static Dense Identity(int r, int c) { Dense a(r, c); for (int i = 0; i < r && i < c; ++i) a(i, i) = 1; return a; }
  static Dense Zero(int r, int c) { return Dense(r, c); }
  int rows() const { return r_; }
  int cols() const { return c_; }
  int size() const { return r_ * c_; }
  T &operator()(int i, int j) { return d[(size_t) i * c_ + j]; }
  const T &operator()(int i, int j) const { return d[(size_t) i * c_ + j]; }
  void setZero() { std::fill(d.begin(), d.end(), T(0)); }
  Dense operator*(const Dense &b) const {
    if (c_ != b.r_) pbt::fail("oracle: product of " + std::to_string(c_) + " columns by " + std::to_string(b.r_) + " rows");
    Dense p(r_, b.c_);
    for (int i = 0; i < r_; ++i) for (int k = 0; k < c_; ++k) { T v = (*this)(i, k); for (int j = 0; j < b.c_; ++j) p(i, j) += v * b(k, j); }
    return p;
  }
  Dense operator*(T s) const { Dense p = *this; for (auto &v: p.d) v *= s; return p; }
  friend Dense operator*(T s, const Dense &a) { return a * s; }
  Dense operator+(const Dense &b) const { assert(r_ == b.r_ && c_ == b.c_); Dense p = *this; for (size_t i = 0; i < d.size(); ++i) p.d[i] += b.d[i]; return p; }
  Dense operator-(const Dense &b) const { return *this + b * T(-1); }
  Dense &operator+=(const Dense &b) { return *this = *this + b; }
  bool operator==(const Dense &b) const { return r_ == b.r_ && c_ == b.c_ && d == b.d; }
  bool operator!=(const Dense &b) const { return !(*this == b); }
  Dense transpose() const { Dense t(c_, r_); for (int i = 0; i < r_; ++i) for (int j = 0; j < c_; ++j) t(j, i) = (*this)(i, j); return t; }
  Dense adjoint() const { Dense t(c_, r_); for (int i = 0; i < r_; ++i) for (int j = 0; j < c_; ++j) t(j, i) = conj_((*this)(i, j)); return t; }
  Dense block(int i0, int j0, int m, int n) const { Dense b(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) b(i, j) = (*this)(i0 + i, j0 + j); return b; }
  Dense leftCols(int n) const { return block(0, 0, r_, n); }
  Dense diagonal() const { Dense b(std::min(r_, c_), 1); for (int i = 0; i < b.r_; ++i) b(i, 0) = (*this)(i, i); return b; }
  Dense asDiagonal() const { Dense b(r_, r_); for (int i = 0; i < r_; ++i) b(i, i) = (*this)(i, 0); return b; }
  void swap_rows(int i, int k) { for (int j = 0; j < c_; ++j) std::swap((*this)(i, j), (*this)(k, j)); }
 private:
  static LD conj_(LD v) { return v; }
  static std::complex<LD> conj_(std::complex<LD> v) { return std::conj(v); }
};
typedef Dense<LD> ML;
typedef Dense<std::complex<LD>> MCL;

template<class T>
inline LD mx(const Dense<T> &a) { LD m = 0; for (auto &v: a.d) { LD z = std::abs(v); if (!(z <= m)) m = z; } return m; }

inline std::string str(const ML &a) {
  std::ostringstream o;
  o.precision(17);
  o << a.rows() << "x" << a.cols() << "[";
  for (int i = 0; i < a.rows(); ++i) {
    if (i) o << "; ";
    for (int j = 0; j < a.cols(); ++j) o << (j ? " " : "") << (double) a(i, j);
  }
  o << "]";
  return o.str();
}
template<class M>
inline ML up(const M &a) {
  ML r((int) a.rows(), (int) a.cols());
  for (int i = 0; i < r.r_; ++i) for (int j = 0; j < r.c_; ++j) r(i, j) = a(i, j);
  return r;
}
template<class M>
inline MCL upc(const M &a) {
  MCL r((int) a.rows(), (int) a.cols());
  for (int i = 0; i < r.r_; ++i) for (int j = 0; j < r.c_; ++j) r(i, j) = std::complex<LD>(a(i, j));
  return r;
}

// product of Householder reflections: orthogonal to long double accuracy
inline ML orthogonal(pbt::Src &s, int n) {
  ML q = ML::Identity(n, n);
  int k = (int) s.integer(0, std::min(n, 4));
  for (int i = 0; i < k; ++i) {
    ML v(n, 1);
    for (int j = 0; j < n; ++j) v(j, 0) = s.chance(25) ? 0 : s.uniform(-1, 1);
    LD nn = (v.transpose() * v)(0, 0);
    if (nn < 1e-3L) continue;
    q = q - (2 / nn) * v * (v.transpose() * q);
  }
  if (s.chance(30)) {  // permute rows
    for (int i = n - 1; i > 0; --i) q.swap_rows(i, (int) s.draw((uint64_t) i + 1));
  }
  return q;
}

// nearly, but not exactly, of a special form: null, identity, diagonal, symmetric, antisymmetric, triangular, orthogonal, equal rows
inline ML nearly(pbt::Src &s, int m, int n) {
  ML a = ML::Zero(m, n);
  int form = (int) s.draw(7);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    LD v = s.chance(30) ? (LD) s.integer(-3, 3) : (LD) s.uniform(-1, 1);
    if (form == 0) a(i, j) = i == j;
    else if (form == 1) a(i, j) = i == j ? v : 0;
    else if (form == 2) a(i, j) = i <= j || i >= n || j >= m ? v : a(j, i);
    else if (form == 3) a(i, j) = i < j || i >= n || j >= m ? v : i == j ? 0 : -a(j, i);
    else if (form == 4) a(i, j) = i <= j ? v : 0;
    else if (form == 5) a(i, j) = i >= j ? v : 0;
  }
  if (form == 6 && m == n) a = orthogonal(s, n);
  LD e = s.positive(-14, -3);
  if (s.boolean()) { if (a.size()) a((int) s.draw((uint64_t) m), (int) s.draw((uint64_t) n)) += e; }
  else for (auto &v: a.d) v += e * s.uniform(-1, 1);
  return a;
}
// any finite matrix: integers, reals, zeros, rank deficient, badly scaled, graded
inline ML any(pbt::Src &s, int m, int n) {
  ML a(m, n);
  if (s.chance(8)) return nearly(s, m, n);
  int kind = s.chance(12) ? 7 : (int) s.draw(7);
  LD c = s.chance(30) ? s.chance(25) ? s.positive(-12, 12) : s.positive(-6, 6) : 1.;
  int r = 1 + (int) s.draw((uint64_t) std::max(1, std::min(m, n)));
  switch (kind) {
    case 0: for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = (LD) s.integer(-5, 5); break;
    case 1: for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = s.chance(60) ? 0 : (LD) s.integer(-3, 3); break;
    case 2: {  // low rank, exactly representable
      a.setZero();
      for (int k = 0; k < r; ++k) {
        ML u(m, 1), v(1, n);
        for (int i = 0; i < m; ++i) u(i, 0) = (LD) s.integer(-3, 3);
        for (int j = 0; j < n; ++j) v(0, j) = (LD) s.integer(-3, 3);
        a += u * v;
      }
      break;
    }
    case 3: a.setZero(); for (int i = 0; i < std::min(m, n); ++i) a(i, i) = s.scaled(-3, 3, 20); break;
    case 4: for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = s.scaled(-4, 4); break;
    case 7: {  // graded: rows and columns of different magnitude
      std::vector<LD> rs(m), cs(n);
      int spread = (int) s.integer(1, 6);
      for (auto &v: rs) v = std::pow((LD) 10, (LD) s.integer(-spread, spread));
      for (auto &v: cs) v = std::pow((LD) 10, (LD) s.integer(-spread, spread));
      if (m == n && s.boolean()) for (int i = 0; i < n; ++i) cs[i] = 1 / rs[i];
      for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = s.uniform(-1, 1) * rs[i] * cs[j];
      break;
    }
    default: for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = s.uniform(-1, 1);
  }
  return a * c;
}

// singular values between 1/cond and 1, times a scale
inline std::vector<LD> spectrum(pbt::Src &s, int n, double logcond) {
  std::vector<LD> v(n);
  int kind = (int) s.draw(5);
  LD c = s.uniform(0.3, 3), e = kind == 4 ? s.positive(-14, -2) : 0;
  if (kind == 4 && s.boolean()) c = 1;
  for (int i = 0; i < n; ++i) {
    if (kind == 0) v[i] = 1;
    else if (kind == 1) v[i] = (LD) s.integer(1, 9);
    else if (kind == 2) v[i] = c * (s.chance(50) ? 1 : 2);
    else if (kind == 4) v[i] = c * (1 + e * s.uniform(-1, 1));  // nearly equal
    else v[i] = s.positive(-logcond, 0);
  }
  return v;
}
inline ML with_svd(const ML &u, const std::vector<LD> &sv, const ML &v, int m, int n) {
  ML d = ML::Zero(m, n);
  for (size_t i = 0; i < sv.size(); ++i) d((int) i, (int) i) = sv[i];
  return u * d * v.transpose();
}
inline ML pinv_of(const ML &u, const std::vector<LD> &sv, const ML &v, int m, int n, LD tol) {
  ML d = ML::Zero(n, m);
  for (size_t i = 0; i < sv.size(); ++i) if (sv[i] > tol) d((int) i, (int) i) = 1 / sv[i];
  return v * d * u.transpose();
}
inline void close(const ML &a, const ML &b, LD tol, const std::string &what) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) pbt::fail(what + ": size " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) + ", expected " + std::to_string(b.rows()) + "x" + std::to_string(b.cols()));
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j)
    if (!(std::fabs(a(i, j) - b(i, j)) <= tol)) {
      std::ostringstream o;
      o.precision(17);
      o << what << ": coefficient (" << i << "," << j << ") is " << (double) a(i, j) << ", expected " << (double) b(i, j) << ", tolerance " << (double) tol;
      pbt::fail(o.str());
    }
}
template<class M>
inline void resize(M &m, int r, int c) { m.resize(r, c); }
template<class M>
inline M down(ML a) {  // to the class under test
  M r;
  r.resize(a.rows(), a.cols());
  if (sizeof(typename M::Scalar) == sizeof(float)) {  // squares of the coefficients must stay within the range of single precision
    LD m = mx(a);
    if (m > 0 && (m < 1e-9L || m > 1e9L)) a = a * (1 / m);
  }
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) r(i, j) = (typename M::Scalar) a(i, j);
  return r;
}
}  // namespace mat
#endif
