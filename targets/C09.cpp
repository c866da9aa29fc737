// C09: inverses, linear solvers, least squares, eigenvalues.
// scale: 12
// parts: 8
#include "pbt.h"
#include "mat.h"
#include "hard_eigen.h"
#include "MathUtils/Matrix.h"
#include "MathUtils/Matrix33.h"
#include "MathUtils/Matrix66.h"
#include "MathUtils/Vector3d.h"
#include "MathUtils/Vector6d.h"
using namespace mathutils;
using namespace mat;
PBT_PROPERTY("C09",
             "matrices of 1x1 to 12x12 (dynamic) and 3x3, 6x6 built from a chosen singular value or eigenvalue spectrum (condition up to 1e5, repeated and zero values, permutations, scales 1e-4..1e4), one or "
             "several right hand sides; the inverse, the solutions, the pseudo inverse (with default and chosen tolerance), the least squares solutions with and without equality constraints and the eigenvalues are "
             "compared with the values known by construction or with the optimality conditions, in long double; non-trivial: a matrix of at least 2x2 that is not the identity")

static ML identity(int n) { return ML::Identity(n, n); }
static LD vmax(const std::vector<LD> &v) { LD m = 0; for (auto x: v) m = std::max(m, std::fabs(x)); return m; }
static LD vmin(const std::vector<LD> &v) { LD m = INFINITY; for (auto x: v) m = std::min(m, std::fabs(x)); return m; }

struct Inv { ML a, inv; LD cond; };
static Inv invertible(pbt::Src &s, int n, double logcond = 5) {
  auto sv = spectrum(s, n, s.boolean() ? 1.5 : logcond);
  LD c = s.chance(25) ? s.positive(-4, 4) : 1;
  for (auto &v: sv) v *= c;
  ML u = orthogonal(s, n), v = orthogonal(s, n);
  return {with_svd(u, sv, v, n, n), pinv_of(u, sv, v, n, n, 0), vmax(sv) / vmin(sv)};
}

template<class M>
static void inverse(pbt::Src &s, int n) {
  auto I = invertible(s, n, n == 3 ? 3 : 5);
  M a = down<M>(I.a);
  ML A = up(a);
  s.note("A=" + mat::str(A));
  s.nontrivial(n > 1 && A != identity(n));
  M b = a.GetInverse();
  CHECK(up(a) == A, "GetInverse modified the matrix");
  // Elimination: eps * cond for the inverse and A * inverse, eps * cond^2 for inverse * A.  By cofactors, as Eigen does
  // up to 4x4: the relative errors of the cofactors and of the determinant are up to eps * cond^2.
  LD tol = 60 * n * pbt::EPS * I.cond, more = n <= 4 ? I.cond * I.cond : I.cond;
  if (n <= 4) tol *= I.cond * I.cond;
  close(up(b), I.inv, tol * mx(I.inv) * n, "inverse");
  close(A * up(b), identity(n), tol * n, "A * inverse");
  close(up(b) * A, identity(n), 60 * n * n * pbt::EPS * I.cond * more, "inverse * A");
  a.Inverse();
  close(up(a), up(b), 1e-14L * mx(up(b)), "in place inverse");
}
#if PART(1)
TARGET(inverse_mn, 6000) { inverse<MatrixMN<double>>(s, s.size(1, 12, 40)); }
TARGET(inverse_33, 5000) { inverse<Matrix33<double>>(s, 3); }
TARGET(inverse_66, 5000) { inverse<Matrix66<double>>(s, 6); }
#endif

static ML rhs(pbt::Src &s, int n, int k) {
  ML b(n, k);
  LD c = s.chance(25) ? s.positive(-4, 4) : 1;
  for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) b(i, j) = c * (s.chance(40) ? (LD) s.integer(-9, 9) : (LD) s.uniform(-5, 5));
  return b;
}
// rounded to double, so that the oracle sees exactly what the solver sees
static ML rounded(ML a) { for (auto &v: a.d) v = (double) v; return a; }

template<class M, class B>
static void solve(pbt::Src &s, int n, int k, B make) {
  auto I = invertible(s, n, s.chance(30) ? 10 : 5);
  if (I.cond > 1e7L) s.label("nearly singular");
  M a = down<M>(I.a);
  ML A = up(a), RHS = rounded(rhs(s, n, k));
  auto b = make(RHS);
  s.note("A=" + mat::str(A) + " b=" + mat::str(RHS));
  s.nontrivial(n > 1 && A != identity(n));
  for (int w = 0; w < 2; ++w) {
    auto x = w ? a.QRSolver(b) : a.LUSolver(b);
    const char *nm = w ? "QR solver" : "LU solver";
    CHECK(x.rows() == n && x.cols() == k, nm << ": size of the solution");
    ML X = up(x);
    close(A * X, RHS, 50 * n * n * pbt::EPS * (mx(A) * mx(X) + mx(RHS)) + 1e-300L, std::string(nm) + ": A*x = b");
    close(X, I.inv * RHS, 200 * n * n * pbt::EPS * I.cond * (mx(I.inv) * mx(RHS) * n) + 1e-300L, std::string(nm) + ": solution");
  }
  CHECK(up(a) == A && up(b) == RHS, "the solver modified its inputs");
}
#if PART(2)
TARGET(solve_mn, 6000) {
  int n = s.size(1, 12, 40), k = s.size(1, 4);
  solve<MatrixMN<double>>(s, n, k, [](const ML &b) { return down<MatrixMN<double>>(b); });
}
TARGET(solve_33, 4000) {
  switch (s.draw(3)) {
    case 0: solve<Matrix33<double>>(s, 3, 1, [](const ML &b) { Eigen::Matrix<double, 3, 1> v; for (int i = 0; i < 3; ++i) v(i) = (double) b(i, 0); return v; }); break;
    case 1: solve<Matrix33<double>>(s, 3, 3, [](const ML &b) { return down<Matrix33<double>>(b); }); break;
    default: solve<Matrix33<double>>(s, 3, 1 + (int) s.draw(3), [](const ML &b) { return down<MatrixMN<double>>(b); });
  }
}
#endif
#if PART(3)
TARGET(solve_66, 4000) {
  switch (s.draw(3)) {
    case 0: solve<Matrix66<double>>(s, 6, 1, [](const ML &b) { Eigen::Matrix<double, 6, 1> v; for (int i = 0; i < 6; ++i) v(i) = (double) b(i, 0); return v; }); break;
    case 1: solve<Matrix66<double>>(s, 6, 6, [](const ML &b) { return down<Matrix66<double>>(b); }); break;
    default: solve<Matrix66<double>>(s, 6, 1 + (int) s.draw(3), [](const ML &b) { return down<MatrixMN<double>>(b); });
  }
}
#endif

// ------------------------------------------------------------------------------- pseudo inverse
// Singular values are either clearly above the tolerance or clearly below it.
template<class M, class P>
static void pinv(pbt::Src &s, int m, int n, P free_pinv) {
  int k = std::min(m, n);
  LD tol = 1e-6L;
  int mode = (int) s.draw(3);  // 0: default tolerance, 1: member with tolerance, 2: free function with tolerance
  if (mode) tol = s.pick({1e-8, 1e-6, 1e-3, 0.5, 1.});
  double toll = (double) tol;
  ML u = orthogonal(s, m), v = orthogonal(s, n);
  std::vector<LD> sv(k);
  int dropped = 0;
  bool far = s.chance(40);  // the kept singular values are far above the tolerance, the others far below
  LD scale = far ? std::min(1e10L * tol, std::max(1e3L * tol, (LD) s.positive(-3, 6))) : 1;  // rounding stays clearly below the tolerance
  if (far) s.label("far from the tolerance");
  for (int i = 0; i < k; ++i) {
    if (far) {
      if (s.chance(25)) { sv[i] = s.boolean() ? 0 : tol * 1e-3L; dropped++; } else sv[i] = scale * s.pick({1.L, 2.L, 5.L, 10.L, 100.L});
    } else if (s.chance(25)) {
      sv[i] = s.boolean() ? 0 : tol * s.pick({0.5L, 0.1L, 1e-3L, 0.9L});
      dropped++;
    } else sv[i] = tol * s.pick({2.L, 5.L, 10.L, 100.L, 1e3L, 1.1L});
  }
  M a = down<M>(with_svd(u, sv, v, m, n));
  ML A = up(a), ref = pinv_of(u, sv, v, m, n, tol);
  s.note("A=" + mat::str(A));
  s.show("tol", toll);
  s.show("mode", mode);
  s.nontrivial(m > 1 || n > 1);
  if (dropped) s.label("rank deficient for the tolerance");
  M p = mode == 0 ? a.GetPseudoInverse() : mode == 1 ? a.GetPseudoInverse(toll) : free_pinv(a, toll);
  ML Pm = up(p);
  CHECK(up(a) == A, "the pseudo inverse modified the matrix");
  // cond <= 1e3 * the gap 4: perturbation of the kept subspace by eps*|A|/gap
  LD t = 500 * (m + n) * pbt::EPS * 1e3L * 1e3L;
  close(Pm, ref, t * (mx(ref) + 1e-300L), "pseudo inverse");
  if (vmax(sv) > 0) {  // Moore-Penrose, for the matrix restricted to the kept singular values
    std::vector<LD> kept = sv;
    for (auto &x: kept) if (x <= tol) x = 0;
    ML B = with_svd(u, kept, v, m, n);
    LD t2 = t * 1e3L;
    close(B * Pm * B, B, t2 * (mx(B) + 1e-300L), "A*A+*A");
    close(Pm * B * Pm, Pm, t2 * (mx(ref) + 1e-300L), "A+*A*A+");
    ML ap = B * Pm, pa = Pm * B;
    close(ap, ap.transpose(), t2, "A*A+ symmetric");
    close(pa, pa.transpose(), t2, "A+*A symmetric");
  }
}
#if PART(4)
TARGET(pinv_mn, 5000) { int m = s.size(1, 10, 40), n = s.size(1, 10, 40); pinv<MatrixMN<double>>(s, m, n, [](const MatrixMN<double> &a, double t) { return Pinv(a, t); }); }
TARGET(pinv_33, 3000) { pinv<Matrix33<double>>(s, 3, 3, [](const Matrix33<double> &a, double t) { return Pinv(a, t); }); }
TARGET(pinv_66, 3000) { pinv<Matrix66<double>>(s, 6, 6, [](const Matrix66<double> &a, double t) { return Pinv(a, t); }); }
#endif

// ------------------------------------------------------------------------------- least squares
template<class M, class B>
static void lsq(pbt::Src &s, int m, int n, int nr, B make) {
  int k = std::min(m, n);
  bool exact = m <= n;  // a solution exists: the error grows as cond, not cond^2
  auto sv = spectrum(s, k, exact && s.chance(40) ? 9 : 3);
  LD c = s.chance(25) ? s.positive(-4, 4) : 1;
  ML u = orthogonal(s, m), v = orthogonal(s, n);
  for (auto &x: sv) x *= c;
  LD cond = vmax(sv) / vmin(sv);
  M a = down<M>(with_svd(u, sv, v, m, n));
  ML A = up(a), RHS = rounded(rhs(s, m, nr)), ref = pinv_of(u, sv, v, m, n, 0);
  auto b = make(RHS);
  s.note("A=" + mat::str(A) + " b=" + mat::str(RHS));
  s.nontrivial(m > 1 || n > 1);
  s.label(m > n ? "overdetermined" : m < n ? "underdetermined" : "square");
  auto x = a.LeastSquareSolver(b);
  CHECK(x.rows() == n && x.cols() == nr, "least squares: size of the solution");
  ML X = up(x), want = ref * RHS;
  // the perturbation bound of a least squares problem has cond^2 * residual
  LD tol = 200 * (m + n) * pbt::EPS * cond * (1 + (exact ? 0 : cond)) * (mx(ref) * mx(RHS) * m) + 1e-300L;
  close(X, want, tol, "least squares: solution of least residual (and least norm)");
  close(A.transpose() * (A * X - RHS), ML::Zero(n, nr), 500 * (m + n) * pbt::EPS * cond * mx(A) * m * (mx(A) * mx(want) * n + mx(RHS)) + 1e-300L, "least squares: A'(Ax-b)");
}
#if PART(5)
TARGET(lsq_mn, 5000) { int m = s.size(1, 14, 40), n = s.size(1, 14, 40); lsq<MatrixMN<double>>(s, m, n, s.size(1, 3), [](const ML &b) { return down<MatrixMN<double>>(b); }); }
#endif
#if PART(6)
TARGET(lsq_33, 2500) { lsq<Matrix33<double>>(s, 3, 3, 1, [](const ML &b) { Eigen::Matrix<double, 3, 1> v; for (int i = 0; i < 3; ++i) v(i) = (double) b(i, 0); return v; }); }
#endif
#if PART(7)
TARGET(lsq_66, 2500) { lsq<Matrix66<double>>(s, 6, 6, 1, [](const ML &b) { Eigen::Matrix<double, 6, 1> v; for (int i = 0; i < 6; ++i) v(i) = (double) b(i, 0); return v; }); }
#endif

// Gaussian elimination with complete pivoting, for the KKT system of the constrained problem
static ML gauss(ML a, ML b) {
  int n = a.rows();
  std::vector<int> pc(n);
  for (int i = 0; i < n; ++i) pc[i] = i;
  for (int c = 0; c < n; ++c) {
    int pi = c, pj = c;
    for (int i = c; i < n; ++i) for (int j = c; j < n; ++j) if (std::fabs(a(i, j)) > std::fabs(a(pi, pj))) { pi = i; pj = j; }
    a.swap_rows(c, pi);
    b.swap_rows(c, pi);
    for (int i = 0; i < n; ++i) std::swap(a(i, c), a(i, pj));
    std::swap(pc[c], pc[pj]);
    for (int i = c + 1; i < n; ++i) {
      LD f = a(i, c) / a(c, c);
      for (int j = c; j < n; ++j) a(i, j) -= f * a(c, j);
      for (int j = 0; j < b.cols(); ++j) b(i, j) -= f * b(c, j);
    }
  }
  ML x(n, b.cols());
  for (int j = 0; j < b.cols(); ++j) for (int i = n - 1; i >= 0; --i) {
    LD t = b(i, j);
    for (int k = i + 1; k < n; ++k) t -= a(i, k) * x(pc[k], j);
    x(pc[i], j) = t / a(i, i);
  }
  return x;
}
#if PART(5)
TARGET(lsq_constraint, 5000) {
  typedef MatrixMN<double> M;
  int p = s.size(1, 5), n = p + 1 + s.size(0, 5), m = n + 1 + s.size(0, 8);
  auto sa = spectrum(s, n, 1.5), sc = spectrum(s, p, 1.5);
  ML A = rounded(with_svd(orthogonal(s, m), sa, orthogonal(s, n), m, n)), C = rounded(with_svd(orthogonal(s, p), sc, orthogonal(s, n), p, n));
  ML b = rounded(rhs(s, m, 1)), d = rounded(rhs(s, p, 1));
  s.note("A=" + mat::str(A) + " b=" + mat::str(b) + " C=" + mat::str(C) + " d=" + mat::str(d));
  s.nontrivial();
  M a = down<M>(A), c = down<M>(C), bb = down<M>(b), dd = down<M>(d);
  M x = a.LeastSquareSolverConstraint(bb, c, dd);
  CHECK(x.rows() == n && x.cols() == 1, "constrained least squares: size");
  ML X = up(x);
  // KKT
  ML K(n + p, n + p), R(n + p, 1);
  ML ata = A.transpose() * A, atb = A.transpose() * b;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) K(i, j) = ata(i, j);
    for (int j = 0; j < p; ++j) K(i, n + j) = K(n + j, i) = C(j, i);
    R(i, 0) = atb(i, 0);
  }
  for (int j = 0; j < p; ++j) R(n + j, 0) = d(j, 0);
  ML ref = gauss(K, R).block(0, 0, n, 1);
  LD ca = vmax(sa) / vmin(sa), cc = vmax(sc) / vmin(sc), scale = mx(ref) + mx(b) / vmin(sa) + mx(d) / vmin(sc);
  close(C * X, d, 1000 * m * pbt::EPS * cc * (mx(C) * mx(X) * n + mx(d)) + 1e-300L, "constrained least squares: C*x = d");
  close(X, ref, 2000 * m * pbt::EPS * ca * ca * cc * cc * scale * n, "constrained least squares: solution");
}
#endif

// ------------------------------------------------------------------------------- eigenvalues
template<class E>
static void match(const E &ev, const std::vector<std::complex<LD>> &want, LD tol) {
  const int n = (int) want.size();
  // match as multisets: greedy on the nearest is enough, the expected values being at distance 0 or well apart or interchangeable
  std::vector<bool> used(n, false);
  for (int k = 0; k < n; ++k) {
    std::complex<LD> e(ev(k).real(), ev(k).imag());
    int best = -1;
    for (int j = 0; j < n; ++j) if (!used[j] && (best < 0 || std::abs(want[j] - e) < std::abs(want[best] - e))) best = j;
    CHECK(std::abs(want[best] - e) <= tol * n, "eigenvalue " << (double) e.real() << "+" << (double) e.imag() << "i is not one of the matrix (nearest unmatched: " << (double) want[best].real() << "+" << (double) want[best].imag() << "i)");
    used[best] = true;
  }
}
template<class M>
static void eigen(pbt::Src &s, int n) {
  ML D = ML::Zero(n, n);
  std::vector<std::complex<LD>> want;
  LD c = s.chance(25) ? s.positive(-4, 4) : 1;
  int i = 0;
  bool cplx = false;
  // few distinct eigenvalues, as in projections: the iterations of the QR algorithm are the slowest there
  const int few = s.chance(30) ? (int) s.integer(1, 3) : 0;
  while (i < n) {
    if (few) {
      LD re = few == 1 ? (LD) s.integer(0, 1) : few == 2 ? (LD) s.integer(0, 3) : s.boolean() ? 1.L : s.boolean() ? 0.01L : 0.L;
      D(i, i) = c * re;
      want.push_back({c * re, 0});
      i++;
    } else if (i + 1 < n && s.chance(40)) {
      LD re = s.chance(40) ? (LD) s.integer(-5, 5) : (LD) s.uniform(-5, 5), im = s.chance(50) ? (LD) s.integer(1, 5) : (LD) s.uniform(0.1, 5);
      re *= c; im *= c;
      D(i, i) = D(i + 1, i + 1) = re;
      D(i, i + 1) = im;
      D(i + 1, i) = -im;
      want.push_back({re, im});
      want.push_back({re, -im});
      i += 2;
      cplx = true;
    } else {
      LD re = c * (s.chance(50) ? (LD) s.integer(-5, 5) : (LD) s.uniform(-5, 5));
      D(i, i) = re;
      want.push_back({re, 0});
      i++;
    }
  }
  ML q = orthogonal(s, n);
  M a = down<M>(q * D * q.transpose());  // normal: the eigenvalues move by at most the perturbation
  ML A = up(a);
  s.note("A=" + mat::str(A));
  s.nontrivial(n > 1);
  if (cplx) s.label("complex pairs");
  auto ev = a.Eigenvalues();
  CHECK((int) ev.size() == n, "number of eigenvalues");
  CHECK(up(a) == A, "Eigenvalues modified the matrix");
  LD tol = 100 * n * n * pbt::EPS * (mx(A) + 1e-300L);
  match(ev, want, tol);
}
// Any matrix, defective ones included.  The computed values are the exact eigenvalues of a nearby matrix A+E with |E| of
// order eps*|A|, so their power sums are the traces of the powers of A, up to the first order effect of E.
template<class M>
static void eigen_any(pbt::Src &s, int n) {
  ML B = any(s, n, n);
  switch (s.draw(4)) {
    case 0: for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) B(i, j) = 0; break;  // triangular
    case 1: {  // Jordan block
      LD l = s.chance(50) ? (LD) s.integer(-3, 3) : (LD) s.uniform(-2, 2);
      B = ML::Identity(n, n) * l;
      for (int i = 0; i + 1 < n; ++i) B(i, i + 1) = 1;
      s.label("defective");
      break;
    }
    default:;
  }
  M a = down<M>(B);
  ML A = up(a);
  s.note("A=" + mat::str(A));
  s.nontrivial(n > 1 && mx(A) > 0);
  auto ev = a.Eigenvalues();
  CHECK((int) ev.size() == n, "number of eigenvalues");
  LD norm = 0;
  for (auto v: A.d) norm += v * v;
  norm = std::sqrt(norm);
  if (norm == 0) norm = 1;
  ML S = A * (1 / norm), P = S;
  std::vector<std::complex<LD>> e(n), pw(n, 1);
  for (int i = 0; i < n; ++i) {
    e[i] = std::complex<LD>(ev(i).real(), ev(i).imag()) / norm;
    CHECK(std::abs(e[i]) <= 1 + 100 * n * pbt::EPS, "an eigenvalue is larger than the norm of the matrix");
  }
  for (int k = 1; k <= n; ++k) {
    LD tr = 0;
    std::complex<LD> sum = 0;
    for (int i = 0; i < n; ++i) { tr += P(i, i); pw[i] *= e[i]; sum += pw[i]; }
    CHECK(std::abs(sum - tr) <= 100 * k * n * n * pbt::EPS, "the sum of the powers " << k << " of the eigenvalues is " << (double) sum.real() << "+" << (double) sum.imag() << "i, the trace of the power is " << (double) tr << " (matrix of norm 1)");
    P = P * S;
  }
}
#if PART(8)
TARGET_FORK(eigen_non_square, 200) {
  int m = s.size(1, 8), n = s.size(1, 8);
  if (m == n) n++;
  ML A = any(s, m, n);
  s.note("A=" + mat::str(A));
  s.nontrivial();
  MatrixMN<double> a = down<MatrixMN<double>>(A);
  auto r = pbt::in_child([&] { a.Eigenvalues(); });
  CHECK(r.kind != pbt::ChildResult::RETURNED, "the eigenvalues of a " << m << "x" << n << " matrix are returned");
}
TARGET(eigen_any_mn, 4000) { eigen_any<MatrixMN<double>>(s, s.size(1, 10, 20)); }
TARGET(eigen_hard, 2000) {  // matrices for which the usual iterations do not converge
  const auto &h = s.pick(hard::cases());
  double f = s.sign() * std::ldexp(1., (int) s.integer(-20, 20));
  s.show("order", h.n); s.show("a(0,0)", h.a[0]); s.show("factor", f);
  s.nontrivial();
  std::vector<std::complex<LD>> want;
  for (double v: h.values) want.push_back({f * (LD) v, 0});
  LD top = 0;
  for (auto &v: want) top = std::max(top, std::abs(v));
  MatrixMN<double> a((unsigned) h.n, (unsigned) h.n);
  for (int i = 0; i < h.n; ++i) for (int j = 0; j < h.n; ++j) a(i, j) = f * h.a[(size_t) i * h.n + j];
  auto ev = a.Eigenvalues();
  CHECK((int) ev.size() == h.n, "number of eigenvalues");
  match(ev, want, 100 * h.n * h.n * pbt::EPS * top);
  if (h.n == 6) {
    Matrix66<double> b;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) b(i, j) = a(i, j);
    match(b.Eigenvalues(), want, 100 * h.n * h.n * pbt::EPS * top);
  }
}
TARGET(eigen_mn, 5000) { eigen<MatrixMN<double>>(s, s.size(1, 12, 40)); }
#endif
#if PART(1)
TARGET(eigen_any_33, 2500) { eigen_any<Matrix33<double>>(s, 3); }
TARGET(eigen_33, 3000) { eigen<Matrix33<double>>(s, 3); }
#endif
#if PART(3)
TARGET(eigen_any_66, 2500) { eigen_any<Matrix66<double>>(s, 6); }
TARGET(eigen_66, 3000) { eigen<Matrix66<double>>(s, 6); }
#endif
