// C08: matrix decompositions of MatrixMN, Matrix33 and Matrix66.
// scale: 12
// parts: 5
#include "pbt.h"
#include "mat.h"
#include "MathUtils/Matrix.h"
#include "MathUtils/Matrix33.h"
#include "MathUtils/Matrix66.h"
using namespace mathutils;
using namespace mat;
PBT_PROPERTY("C08",
             "matrices of 1x1 to 14x14 (dynamic) and 3x3, 6x6 (fixed): integer, sparse, exactly rank deficient, diagonal, badly scaled and uniform coefficients, symmetric positive definite ones "
             "with a chosen spectrum, and non symmetric / indefinite / rectangular ones for the rejections; every factor is checked for its shape, structure (triangular, permutation, orthonormal, ordered) "
             "and for rebuilding the matrix in long double; non-trivial: the matrix is at least 2x2 and not diagonal")

template<class M>
static M fresh(int, int) { return M(); }

static bool diagonal(const ML &a) {
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (i != j && a(i, j) != 0) return false;
  return true;
}
template<class M>
static LD eps() { return std::numeric_limits<typename M::Scalar>::epsilon(); }

template<class M>
static void upper(const M &r) {
  for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < std::min<int>(i, (int) r.cols()); ++j) CHECK(r(i, j) == typename M::Scalar(0), "R/U is not upper triangular at (" << i << "," << j << ")");
}

template<class M>
static void qr(pbt::Src &s, int m, int n) {
  M a = down<M>(any(s, m, n));
  ML A = up(a);
  s.note("A=" + mat::str(A));
  s.nontrivial(m > 1 && n > 1 && !diagonal(A));
  LD tol = 20 * (m + n) * eps<M>();
  M q, r;
  a.GetQRDecomposition(q, r);
  CHECK(up(a) == A, "the decomposed matrix was modified");
  ML Q = up(q), R = up(r);
  CHECK(Q.rows() == m && Q.cols() == n && R.rows() == n && R.cols() == n, "QR: sizes of the factors");
  upper(r);
  close(Q.transpose() * Q, ML::Identity(n, n), tol, "QR: Q'Q");
  close(Q * R, A, tol * (mx(A) * std::sqrt((LD) m) + 1e-300L), "QR: Q*R");
  // a second use of the same output objects gives the same result
  M b = down<M>(any(s, m, n)), q2 = q, r2 = r;
  b.GetQRDecomposition(q2, r2);
  a.GetQRDecomposition(q2, r2);
  CHECK(up(q2) == Q && up(r2) == R, "QR depends on the previous content of its outputs");
  { M x = a; x.GetQRDecomposition(x, r2); CHECK(up(x) == Q && up(r2) == R, "QR written over the matrix itself (as Q) gives other factors"); }
  { M x = a; x.GetQRDecomposition(q2, x); CHECK(up(q2) == Q && up(x) == R, "QR written over the matrix itself (as R) gives other factors"); }
}
#if PART(1)
TARGET(qr_mn, 6000) { int n = s.size(1, 14, 70), m = n + s.size(0, 10); qr<MatrixMN<double>>(s, m, n); }
TARGET(qr_33, 4000) { qr<Matrix33<double>>(s, 3, 3); }
TARGET(qr_66, 4000) { qr<Matrix66<double>>(s, 6, 6); }
TARGET(qr_float, 1500) { int n = s.size(1, 8), m = n + s.size(0, 5); qr<MatrixMN<float>>(s, m, n); }

#endif
#if PART(2)
TARGET(full_qr, 6000) {
  int n = s.size(1, 14, 70), m = n + s.size(0, 10);
  typedef MatrixMN<double> M;
  M a = down<M>(any(s, m, n)), q, r;
  ML A = up(a);
  s.note("A=" + mat::str(A));
  s.nontrivial(m > 1 && n > 1 && !diagonal(A));
  if (m > n) s.label("tall");
  LD tol = 20 * (m + n) * eps<M>();
  a.GetFullQRDecomposition(q, r);
  ML Q = up(q), R = up(r);
  CHECK(Q.rows() == m && Q.cols() == m && R.rows() == n && R.cols() == n, "full QR: sizes of the factors");
  upper(r);
  close(Q.transpose() * Q, ML::Identity(m, m), tol, "full QR: Q'Q");
  close(Q.leftCols(n) * R, A, tol * (mx(A) * std::sqrt((LD) m) + 1e-300L), "full QR: Q*R");
  CHECK(up(a) == A, "the decomposed matrix was modified");
  { M x = a, y; x.GetFullQRDecomposition(x, y); CHECK(up(x) == Q && up(y) == R, "full QR written over the matrix itself (as Q) gives other factors"); }
  { M x = a, y; x.GetFullQRDecomposition(y, x); CHECK(up(y) == Q && up(x) == R, "full QR written over the matrix itself (as R) gives other factors"); }
  if (m == n) {
    M q2, r2;
    a.GetQRDecomposition(q2, r2);
    close(up(q2), Q, tol, "square: thin and full Q");
    close(up(r2), R, tol * (mx(A) * m + 1e-300L), "square: thin and full R");
  }
}

#endif
template<class M>
static void lu(pbt::Src &s, int n) {
  M a = down<M>(any(s, n, n)), p, l, u;
  ML A = up(a);
  s.note("A=" + mat::str(A));
  s.nontrivial(n > 1 && !diagonal(A));
  a.GetLUDecomposition(p, l, u);
  CHECK(up(a) == A, "the decomposed matrix was modified");
  ML P = up(p), L = up(l), U = up(u);
  CHECK(P.rows() == n && P.cols() == n && L.rows() == n && L.cols() == n && U.rows() == n && U.cols() == n, "LU: sizes");
  for (int i = 0; i < n; ++i) {
    int r = 0, c = 0;
    for (int j = 0; j < n; ++j) {
      CHECK(P(i, j) == 0 || P(i, j) == 1, "LU: P is not a permutation matrix");
      if (P(i, j) == 1) r++;
      if (P(j, i) == 1) c++;
      if (j > i) CHECK(L(i, j) == 0, "LU: L is not lower triangular");
      if (j == i) CHECK(L(i, j) == 1, "LU: the diagonal of L is not 1");
      if (j < i) CHECK(std::fabs(L(i, j)) <= 1 + 8 * eps<M>(), "LU: multiplier larger than 1: no partial pivoting, L(" << i << "," << j << ")=" << (double) L(i, j));
    }
    CHECK(r == 1 && c == 1, "LU: P is not a permutation matrix");
  }
  upper(u);
  if (P != ML::Identity(n, n)) s.label("pivoted");
  close(L * U, P * A, 10 * n * eps<M>() * (n * mx(U) + mx(A)) + 1e-300L, "LU: P*A = L*U");
  M x = a, y, z;  // outputs over the matrix itself, and used before
  switch (s.draw(3)) {
    case 0: x.GetLUDecomposition(x, y, z); CHECK(up(x) == P && up(y) == L && up(z) == U, "LU written over the matrix itself (as P) gives other factors"); break;
    case 1: x.GetLUDecomposition(y, x, z); CHECK(up(y) == P && up(x) == L && up(z) == U, "LU written over the matrix itself (as L) gives other factors"); break;
    default: x.GetLUDecomposition(y, z, x); CHECK(up(y) == P && up(z) == L && up(x) == U, "LU written over the matrix itself (as U) gives other factors");
  }
  down<M>(any(s, n, n)).GetLUDecomposition(x, y, z);
  a.GetLUDecomposition(x, y, z);
  CHECK(up(x) == P && up(y) == L && up(z) == U, "LU depends on the previous content of its outputs");
}
#if PART(2)
TARGET(lu_mn, 6000) { lu<MatrixMN<double>>(s, s.size(1, 14, 70)); }
TARGET(lu_33, 4000) { lu<Matrix33<double>>(s, 3); }
TARGET(lu_66, 4000) { lu<Matrix66<double>>(s, 6); }
TARGET(fixed_float, 1500) {
  switch (s.draw(4)) {
    case 0: lu<Matrix33<float>>(s, 3); break;
    case 1: lu<Matrix66<float>>(s, 6); break;
    case 2: qr<Matrix33<float>>(s, 3, 3); break;
    default: qr<Matrix66<float>>(s, 6, 6);
  }
}
TARGET(lu_float, 1500) { lu<MatrixMN<float>>(s, s.size(1, 8)); }

#endif
// symmetric positive definite, exactly symmetric after rounding
static ML spd(pbt::Src &s, int n, LD &mineig) {
  auto sv = spectrum(s, n, s.chance(20) ? 10 : 4);
  LD c = s.chance(25) ? s.positive(-12, 12) : 1;
  for (auto &v: sv) v *= c;
  ML q = orthogonal(s, n);
  ML a = with_svd(q, sv, q, n, n);
  a = (0.5L * (a + a.transpose()));
  mineig = *std::min_element(sv.begin(), sv.end());
  return a;
}
template<class M>
static void lower_pos(const ML &L, int n, const char *w) {
  CHECK(L.rows() == n && L.cols() == n, w << ": size");
  for (int i = 0; i < n; ++i) {
    CHECK(L(i, i) > 0, w << ": diagonal of L is not positive");
    for (int j = i + 1; j < n; ++j) CHECK(L(i, j) == 0, w << ": L is not lower triangular");
  }
}
template<class M>
static void chol(pbt::Src &s, int n) {
  LD me;
  M a = down<M>(spd(s, n, me)), l;
  if (s.chance(25)) {  // rounding noise in the symmetry is tolerated
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (s.boolean()) a(i, j) = std::nextafter(a(i, j), (typename M::Scalar) (s.boolean() ? 1e30 : -1e30));
    s.label("symmetric up to rounding");
  }
  ML A = up(a);
  s.note("A=" + mat::str(A));
  s.nontrivial(n > 1 && !diagonal(A));
  a.GetCholeskyDecomposition(l);
  ML L = up(l);
  lower_pos<M>(L, n, "Cholesky");
  close(L * L.transpose(), A, 20 * n * eps<M>() * mx(A), "Cholesky: L*L'");
  CHECK(up(a) == A, "the decomposed matrix was modified");
  a.GetCholeskyDecomposition(a);
  CHECK(up(a) == L, "Cholesky written over the matrix itself gives another factor");
}
#if PART(3)
TARGET(cholesky_mn, 6000) { chol<MatrixMN<double>>(s, s.size(1, 14, 70)); }
TARGET(cholesky_33, 4000) { chol<Matrix33<double>>(s, 3); }
TARGET(cholesky_66, 4000) { chol<Matrix66<double>>(s, 6); }


#endif
template<class M>
static void chol_refused(pbt::Src &s, int m, int n) {
  M l;
  ML A;
  s.nontrivial(n > 1 || m > 1);
  if (m != n) {
    s.label("rectangular");
    A = up(down<M>(any(s, m, n)));
  } else if (n > 1 && s.boolean()) {
    s.label("not symmetric");
    LD me;
    A = up(down<M>(spd(s, n, me)));
    int i = (int) s.draw(n), j = (int) s.draw(n - 1);
    if (j >= i) j++;
    A(i, j) += mx(A) * s.pick({0.01, 0.1, 0.5, -0.3, 2.});
  } else {
    s.label("indefinite");
    LD me;
    auto sv = spectrum(s, n, 2);
    ML q = orthogonal(s, n);
    int k = 1 + (int) s.draw(n);
    for (int i = 0; i < k; ++i) sv[i] = -sv[i];
    A = with_svd(q, sv, q, n, n);
    A = (0.5L * (A + A.transpose()));
  }
  M a = down<M>(A);
  s.note("A=" + mat::str(A));
  bool threw = false;
  try { a.GetCholeskyDecomposition(l); } catch (const std::runtime_error &) { threw = true; }
  CHECK(threw, "Cholesky accepts a matrix that is not square, symmetric and positive definite");
}
#if PART(3)
TARGET(cholesky_refused_mn, 4000) {
  int n = s.size(1, 10, 40), m = s.chance(30) ? s.size(1, 10, 40) : n;
  chol_refused<MatrixMN<double>>(s, m, n);
}
TARGET(cholesky_refused_33, 2500) { chol_refused<Matrix33<double>>(s, 3, 3); }
TARGET(cholesky_refused_66, 2500) { chol_refused<Matrix66<double>>(s, 6, 6); }

TARGET(cholesky_update, 6000) {
  typedef MatrixMN<double> M;
  int n = s.size(1, 12, 40);
  LD me;
  M a = down<M>(spd(s, n, me));
  ML A = up(a);
  M v(n, 1);
  double c = (double) std::sqrt(mx(A));
  for (int i = 0; i < n; ++i) v(i, 0) = s.chance(20) ? 0. : c * s.uniform(-2, 2);
  ML V = up(v);
  LD vv = (V.transpose() * V)(0, 0);
  double sigma = s.chance(70) ? s.pick({1., 0.5, 2., 10.}) : s.positive(-10, 10);
  if (s.chance(25)) {  // a vector of another magnitude than the matrix, compensated by sigma or not
    double e = s.positive(-8, 8);
    for (int i = 0; i < n; ++i) v(i, 0) *= e;
    if (s.chance(60)) sigma = sigma / (e * e);
    V = up(v);
    vv = (V.transpose() * V)(0, 0);
    s.label("scaled update");
  }
  bool downdate = s.chance(35) && vv > 0;
  if (downdate) { sigma = -(double) (me / vv) * s.pick({0.1, 0.5, 0.9}); s.label("downdate"); } else if (s.chance(10)) sigma = 0;
  s.note("A=" + mat::str(A) + " v=" + mat::str(V));
  s.show("sigma", sigma);
  s.nontrivial(n > 1 && sigma != 0 && vv > 0);
  M l;
  M v1 = v;
  a.GetCholeskyUpdate(l, v1, sigma);
  CHECK(up(a) == A, "the updated matrix was modified by the const update");
  ML L = up(l), want = A + (LD) sigma * V * V.transpose();
  lower_pos<M>(L, n, "Cholesky update");
  close(L * L.transpose(), want, 100 * n * pbt::EPS * (mx(A) + mx(want)), "Cholesky update: L*L' = A + sigma*v*v'");
  M v2 = v;
  a.InPlaceCholeskyUpdate(v2, sigma);
  close(up(a), L, 1e-13L * (mx(L) + 1e-300L), "in place Cholesky update");
}

#endif
template<class M>
static void svd(pbt::Src &s, int m, int n, bool fixed) {
  M a = down<M>(any(s, m, n)), u, sv, v;
  ML A = up(a);
  s.note("A=" + mat::str(A));
  s.nontrivial(m > 1 && n > 1 && !diagonal(A));
  a.GetSVDDecomposition(u, sv, v);
  CHECK(up(a) == A, "the decomposed matrix was modified");
  int k = std::min(m, n);
  ML U = up(u), S = up(sv), V = up(v);
  CHECK(U.rows() == m && U.cols() == k && V.rows() == n && V.cols() == k, "SVD: sizes of U and V");
  ML sval(k, 1);
  if (fixed) {
    for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) if (i != j) CHECK(S(i, j) == 0, "SVD: S is not diagonal");
    sval = S.diagonal();
  } else {
    CHECK(S.rows() == k && S.cols() == 1, "SVD: size of S");
    sval = S;
  }
  for (int i = 0; i < k; ++i) {
    CHECK(sval(i, 0) >= 0, "SVD: negative singular value");
    if (i) CHECK(sval(i, 0) <= sval(i - 1, 0), "SVD: singular values are not in decreasing order");
  }
  LD tol = 30 * (m + n) * eps<M>();
  close(U.transpose() * U, ML::Identity(k, k), tol, "SVD: U'U");
  close(V.transpose() * V, ML::Identity(k, k), tol, "SVD: V'V");
  close(U * sval.asDiagonal() * V.transpose(), A, tol * (mx(A) * std::sqrt((LD) m * n) + 1e-300L), "SVD: U*S*V'");
  M x = a, y, z;  // outputs over the matrix itself
  switch (s.draw(3)) {
    case 0: x.GetSVDDecomposition(x, y, z); CHECK(up(x) == U && up(y) == S && up(z) == V, "SVD written over the matrix itself (as U) gives other factors"); break;
    case 1: x.GetSVDDecomposition(y, x, z); CHECK(up(y) == U && up(x) == S && up(z) == V, "SVD written over the matrix itself (as S) gives other factors"); break;
    default: x.GetSVDDecomposition(y, z, x); CHECK(up(y) == U && up(z) == S && up(x) == V, "SVD written over the matrix itself (as V) gives other factors");
  }
}
#if PART(4)
TARGET(svd_mn, 6000) { int m = s.size(1, 14, 70), n = s.size(1, 14, 70); svd<MatrixMN<double>>(s, m, n, false); }
TARGET(svd_33, 4000) { svd<Matrix33<double>>(s, 3, 3, true); }
TARGET(svd_66, 3000) { svd<Matrix66<double>>(s, 6, 6, true); }

#endif
#if PART(5)
// complex coefficients
TARGET(complex_mn, 2500) {
  typedef std::complex<double> C;
  typedef MatrixMN<C> M;
  int n = s.size(1, 8), m = n + s.size(0, 6);
  ML re = any(s, m, n), im = any(s, m, n);
  M a(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = C((double) re(i, j), (double) im(i, j));
  s.note("re=" + mat::str(re) + " im=" + mat::str(im));
  s.nontrivial(m > 1 && n > 1);
  MCL A = upc(a);
  M q, r;
  a.GetQRDecomposition(q, r);
  MCL Q = upc(q), R = upc(r);
  LD tol = 30 * (m + n) * pbt::EPS;
  CHECK(mx(MCL(Q.adjoint() * Q - MCL::Identity(n, n))) <= tol, "complex QR: Q*Q");
  CHECK(mx(MCL(Q * R - A)) <= tol * (mx(A) * m + 1e-300L), "complex QR: Q*R");
  upper(r);
  if (m == n) {
    M p, l, u;
    a.GetLUDecomposition(p, l, u);
    MCL P = upc(p), L = upc(l), U = upc(u);
    CHECK(mx(MCL(P * A - L * U)) <= tol * (mx(A) + n * mx(U) * mx(L) + 1e-300L), "complex LU");
    upper(u);
  }
  // Hermitian positive definite
  MCL H = A.adjoint() * A + MCL::Identity(n, n) * (LD) (1 + mx(A) * mx(A));
  H = (H + MCL(H.adjoint()));
  M h(n, n), l;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) h(i, j) = C(H(i, j));
  h.GetCholeskyDecomposition(l);
  MCL L = upc(l);
  CHECK(mx(MCL(L * L.adjoint() - upc(h))) <= tol * mx(H), "complex Cholesky");
}
#endif
