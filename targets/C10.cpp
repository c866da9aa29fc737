// C10: matrix predicates, element access and manipulation.
// scale: 32
// parts: 4
#include "pbt.h"
#include "mat.h"
#include "hard_eigen.h"
#include "MathUtils/Matrix.h"
#include "MathUtils/Matrix33.h"
#include "MathUtils/Matrix66.h"
using namespace mathutils;
using namespace mat;
PBT_PROPERTY("C10",
             "matrices of 1x1 to 12x12 (dynamic, square and rectangular) and 3x3, 6x6, built with or without the tested feature (symmetric, orthogonal, identity, positive semi definite, equal) with a perturbation "
             "either at rounding level or clearly above the documented threshold, and histories of element writes, transpositions, resets, symmetrisations, assignments from expressions, copies against a plain "
             "array model; non-trivial: a matrix of at least 2x2, for histories at least two mutations")

template<class M> struct Is33 { static const bool fixed = true; };
template<> struct Is33<MatrixMN<double>> { static const bool fixed = false; };

template<class M>
static void symmetric(pbt::Src &s, int m, int n) {
  ML A = any(s, m, n);
  bool want;
  if (m != n) want = false;
  else {
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) A(i, j) = A(j, i);
    want = true;
    if (n > 1 && mx(A) > 0) {
      int i = (int) s.draw(n), j = (int) s.draw(n - 1);
      if (j >= i) j++;
      if (s.chance(50)) {
        LD d = mx(A) * s.pick({1e-6, 1e-3, 0.1, -1., 3.});
        A(i, j) = A(j, i) + d;
        want = false;
        s.label("one coefficient differs");
      } else if (s.chance(40)) {
        A(i, j) = A(j, i) * (1 + 4 * pbt::EPS);
        s.label("symmetric up to rounding");
      } else if (s.chance(30)) {  // antisymmetric
        for (int r = 0; r < n; ++r) for (int c = 0; c < r; ++c) A(r, c) = -A(c, r);
        want = true;
        for (int r = 0; r < n; ++r) for (int c = 0; c < r; ++c) if (A(r, c) != 0) want = false;
        s.label("antisymmetric off the diagonal");
      }
    }
  }
  M a = down<M>(A);
  s.note("A=" + mat::str(A));
  s.nontrivial(m > 1 || n > 1);
  if (!want && m == n) {  // stay clear of tiny relative differences
    LD d = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d = std::max(d, std::fabs(A(i, j) - A(j, i)));
    if (d < 1e-7L * mx(A)) return;
  }
  CHECK(a.IsSymmetric() == want, "IsSymmetric is " << a.IsSymmetric());
  CHECK(a.IsSquare() == (m == n), "IsSquare is " << a.IsSquare());
  CHECK(a.GetNbRows() == (unsigned) m && a.GetNbCols() == (unsigned) n, "number of rows and columns");
}
template<class M>
static void orthog(pbt::Src &s, int m, int n) {
  ML A;
  bool want = m == n;
  if (m == n) {
    A = orthogonal(s, n);
    switch (s.draw(5)) {
      case 0: {  // scaled: orthogonal columns, not unit
        A = A * s.pick({2.L, 0.5L, 1.01L, 0.999L});
        want = false;
        s.label("orthogonal columns of another norm");
        break;
      }
      case 1: {
        if (n < 2) break;
        int j = (int) s.draw(n), k = (int) s.draw(n - 1);
        if (k >= j) k++;
        LD f = s.pick({1e-6L, 1e-3L, 0.3L});
        LD nn = std::sqrt(1 + f * f);
        for (int i = 0; i < n; ++i) A(i, j) = (A(i, j) + f * A(i, k)) / nn;  // unit columns, not orthogonal
        want = false;
        s.label("unit columns, not orthogonal");
        break;
      }
      case 2: {
        int j = (int) s.draw(n);
        LD f = s.pick({0.L, 1.001L, 3.L});
        for (int i = 0; i < n; ++i) A(i, j) *= f;
        want = false;
        s.label("one column of another norm");
        break;
      }
      case 3: {
        int j = (int) s.draw(n);
        for (int i = 0; i < n; ++i) A(i, j) *= -1;  // reflection: still orthogonal
        break;
      }
      default:;
    }
  } else {  // orthonormal columns but rectangular
    int k = std::max(m, n);
    A = orthogonal(s, k).block(0, 0, m, n);
    s.label("rectangular");
  }
  M a = down<M>(A);
  s.note("A=" + mat::str(A));
  s.nontrivial(m > 1 || n > 1);
  CHECK(a.IsOrthogonal() == want, "IsOrthogonal is " << a.IsOrthogonal());
}
template<class M>
static void psd(pbt::Src &s, int m, int n) {
  ML A;
  bool want = m == n;
  double eps = 1e-7;
  bool custom = s.chance(30);
  if (custom) eps = s.pick({1e-9, 1e-3, 0.5});
  bool near = false;
  if (m == n && n > 1 && s.chance(30)) {  // a diagonal and single elements beside it, null or small elements included
    A = ML(n, n);
    A.setZero();
    auto diag = [&] { return (LD) s.pick({0., 1., 2., 1e-3, 1e-8}); };
    std::vector<int> perm(n);
    for (int i = 0; i < n; ++i) perm[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[s.draw(i + 1)]);
    LD lowest = 1e300L, largest = 0;
    for (int i = 0; i < n;) {
      LD a = diag();
      if (i + 1 < n && s.chance(40)) {
        LD c = diag(), b = s.boolean() ? sqrtl(a * c) * s.pick({0.5L, 0.999L, 1.001L, 2.L}) : (LD) s.positive(-9, 0);
        if (s.boolean()) b = -b;
        b = (double) b;
        A(perm[i], perm[i]) = a; A(perm[i + 1], perm[i + 1]) = c;
        A(perm[i], perm[i + 1]) = A(perm[i + 1], perm[i]) = b;
        LD t = (a + c) / 2, r = sqrtl((a - c) * (a - c) / 4 + b * b);
        lowest = std::min(lowest, t + r > 0 ? (a * c - b * b) / (t + r) : 0.L);
        largest = std::max(largest, t + r);
        i += 2;
      } else {
        A(perm[i], perm[i]) = a;
        lowest = std::min(lowest, a); largest = std::max(largest, a);
        i += 1;
      }
    }
    want = lowest > -eps;
    near = fabsl(lowest + eps) < 0.1L * eps + 1e-14L * largest;
    s.label("single elements beside the diagonal");
  } else if (m == n) {
    auto sv = spectrum(s, n, 3);
    for (auto &v: sv) if (s.chance(15)) v = 0;
    if (s.chance(30)) for (auto &v: sv) v = s.boolean() ? 1.L : s.boolean() ? 0.01L : 0.L;  // few distinct eigenvalues
    if (s.chance(50)) {
      int j = (int) s.draw(n);
      sv[j] = -eps * s.pick({3.L, 10.L, 1e4L});
      want = false;
      s.label("one negative eigenvalue");
    } else if (s.chance(30)) {
      sv[s.draw(n)] = -eps * 0.3L;
      s.label("negative within the tolerance");
    }
    ML q = orthogonal(s, n);
    A = with_svd(q, sv, q, n, n);
    A = 0.5L * (A + A.transpose());
  } else A = any(s, m, n);
  M a = down<M>(A);
  s.note("A=" + mat::str(A));
  s.show("eps", eps);
  s.nontrivial(n > 1 && !near);
  if (near) return;
  bool got = custom ? a.IsPositiveSemiDefinite(eps) : a.IsPositiveSemiDefinite();
  CHECK(got == want, "IsPositiveSemiDefinite is " << got);
}
template<class M>
static void ident(pbt::Src &s, int n, std::function<bool(const M &, double)> with_eps) {
  ML A = ML::Identity(n, n);
  double eps = 1e-12;
  bool custom = with_eps && s.boolean();
  if (custom) eps = s.pick({1e-9, 1e-6, 1e-3, 0.1});
  bool want = true;
  int i = (int) s.draw(n), j = (int) s.draw(n);
  if (s.chance(60)) {
    want = s.boolean();
    LD d = eps * (want ? 0.4L : s.pick({3.L, 1e3L})) * (s.boolean() ? 1 : -1);
    A(i, j) += d;
    s.label(want ? "within the tolerance" : "perturbed");
  } else if (n > 1 && s.chance(30)) {
    A.swap_rows(0, n - 1);
    want = false;
  }
  M a = down<M>(A);
  s.note("A=" + mat::str(A));
  s.nontrivial(n > 1);
  bool got = custom ? with_eps(a, eps) : a.IsIdentity();
  CHECK(got == want, "IsIdentity is " << got << " eps " << eps);
}
template<class M>
static void equal(pbt::Src &s, int m, int n) {
  ML A = any(s, m, n);
  M a = down<M>(A), b = a;
  double eps = 1e-12;
  bool custom = s.boolean();
  if (custom) eps = s.pick({1e-9, 1e-6, 1e-3, 0.1});
  bool want = true;
  LD norm = 0;
  for (auto v: up(a).d) norm += v * v;
  norm = std::sqrt(norm);
  if (norm > 0 && s.chance(70)) {
    want = s.boolean();
    int i = (int) s.draw(m), j = (int) s.draw(n);
    LD d = norm * eps * (want ? 0.3L : s.pick({4.L, 1e3L}));
    b(i, j) += (double) d;
    s.label(want ? "within the tolerance" : "different");
  }
  s.note("A=" + mat::str(A));
  s.nontrivial(m > 1 || n > 1);
  bool g1 = custom ? a.IsEqual(b, eps) : a.IsEqual(b), g2 = custom ? b.IsEqual(a, eps) : b.IsEqual(a);
  CHECK(g1 == want && g2 == want, "IsEqual is " << g1 << "/" << g2 << ", expected " << want << " eps " << eps);
}
#if PART(1)
TARGET(symmetric_mn, 5000) { int n = s.size(1, 12, 40), m = s.chance(25) ? s.size(1, 12, 40) : n; symmetric<MatrixMN<double>>(s, m, n); }
TARGET(symmetric_33, 3000) { symmetric<Matrix33<double>>(s, 3, 3); }
TARGET(symmetric_66, 3000) { symmetric<Matrix66<double>>(s, 6, 6); }
TARGET(orthogonal_mn, 5000) { int n = s.size(1, 12, 40), m = s.chance(25) ? s.size(1, 12, 40) : n; orthog<MatrixMN<double>>(s, m, n); }
TARGET(orthogonal_33, 3000) { orthog<Matrix33<double>>(s, 3, 3); }
TARGET(orthogonal_66, 3000) { orthog<Matrix66<double>>(s, 6, 6); }
#endif
#if PART(2)
TARGET(psd_mn, 5000) { int n = s.size(1, 10, 40), m = s.chance(15) ? s.size(1, 10, 40) : n; psd<MatrixMN<double>>(s, m, n); }
TARGET(psd_hard, 1000) {  // matrices for which the usual iterations for the eigenvalues do not converge
  const auto &h = s.pick(hard::cases());
  bool pos = s.boolean();
  double f = (pos ? 1 : -1) * std::ldexp(1., (int) s.integer(-4, 20));
  s.show("order", h.n); s.show("a(0,0)", h.a[0]); s.show("factor", f);
  s.nontrivial();
  MatrixMN<double> a((unsigned) h.n, (unsigned) h.n);
  for (int i = 0; i < h.n; ++i) for (int j = 0; j < h.n; ++j) a(i, j) = f * h.a[(size_t) i * h.n + j];
  CHECK(a.IsPositiveSemiDefinite() == pos, "IsPositiveSemiDefinite is " << !pos);
  if (h.n == 6) {
    Matrix66<double> b;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) b(i, j) = a(i, j);
    CHECK(b.IsPositiveSemiDefinite() == pos, "IsPositiveSemiDefinite of a 6x6 matrix is " << !pos);
  }
}
TARGET(psd_33, 3000) { psd<Matrix33<double>>(s, 3, 3); }
TARGET(psd_66, 3000) { psd<Matrix66<double>>(s, 6, 6); }
#endif
#if PART(3)
TARGET(identity_mn, 4000) { ident<MatrixMN<double>>(s, s.size(1, 12, 40), [](const MatrixMN<double> &a, double e) { return a.IsIdentity(e); }); }
TARGET(identity_33, 2000) { ident<Matrix33<double>>(s, 3, nullptr); }
TARGET(identity_66, 2000) { ident<Matrix66<double>>(s, 6, nullptr); }
TARGET(equal_mn, 4000) { int m = s.size(1, 12, 40), n = s.size(1, 12, 40); equal<MatrixMN<double>>(s, m, n); }
TARGET(equal_33, 2000) { equal<Matrix33<double>>(s, 3, 3); }
TARGET(equal_66, 2000) { equal<Matrix66<double>>(s, 6, 6); }
#endif

// ------------------------------------------------------------------------------- histories
template<class M>
static void read_all(const M &a, const ML &m) {
  CHECK((int) a.GetNbRows() == m.rows() && (int) a.GetNbCols() == m.cols(), "size is " << a.GetNbRows() << "x" << a.GetNbCols());
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) CHECK(a.at(i, j) == (double) m(i, j), "at(" << i << "," << j << ") is " << a.at(i, j) << ", expected " << (double) m(i, j));
}
template<class M>
static void extract(pbt::Src &s, const M &a, const ML &m) {
  int i = (int) s.draw(m.rows()), j = (int) s.draw(m.cols());
  auto r = a.GetRow(i);
  auto c = a.GetColumn(j);
  auto d = a.GetDiag();
  CHECK(r.rows() == 1 && r.cols() == m.cols(), "shape of a row");
  CHECK(c.rows() == m.rows() && c.cols() == 1, "shape of a column");
  CHECK(d.rows() == std::min(m.rows(), m.cols()) && d.cols() == 1, "shape of the diagonal");
  for (int k = 0; k < m.cols(); ++k) CHECK(r(0, k) == (double) m(i, k), "row " << i);
  for (int k = 0; k < m.rows(); ++k) CHECK(c(k, 0) == (double) m(k, j), "column " << j);
  for (int k = 0; k < d.rows(); ++k) CHECK(d(k, 0) == (double) m(k, k), "diagonal");
}
template<class M>
static void history(pbt::Src &s, int rows, int cols) {
  const bool fixed = Is33<M>::fixed;
  ML m = any(s, rows, cols);
  for (auto &v: m.d) v = (double) v;
  M a = down<M>(m);
  s.note("A=" + mat::str(m));
  int ops = s.size(1, 20), mut = 0;
  for (int k = 0; k < ops; ++k) {
    switch (s.draw(11)) {
      case 0:
      case 1: {
        int i = (int) s.draw(m.rows()), j = (int) s.draw(m.cols());
        double v = s.scaled();
        s.desc << "at(" << i << "," << j << ")=" << v << "; ";
        a.at(i, j) = v;
        m(i, j) = v;
        mut++;
        break;
      }
      case 2: s.note("Transpose()"); a.Transpose(); m = m.transpose(); mut++; break;
      case 3: {
        s.note("Transpose(A)");
        M t = Transpose(a);
        read_all(a, m);
        read_all(t, m.transpose());
        break;
      }
      case 4: if (s.chance(40)) { s.note("SetNull"); a.SetNull(); m.setZero(); mut++; } break;
      case 5: if (s.chance(40)) { s.note("SetIdentity"); a.SetIdentity(); m = ML::Identity(m.rows(), m.cols()); mut++; } break;
      case 6: {
        if (m.rows() != m.cols()) break;
        bool upper = s.boolean();
        s.note(upper ? "MakeSymmetricFromUpper" : "MakeSymmetricFromLower");
        M b = upper ? MakeSymmetricFromUpper(a) : MakeSymmetricFromLower(a);
        read_all(a, m);
        ML r = m;
        for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < i; ++j) if (upper) r(i, j) = m(j, i); else r(j, i) = m(i, j);
        read_all(b, r);
        CHECK(b.IsSymmetric(), "the symmetrised matrix is not symmetric");
        if (s.boolean()) { a = b; m = r; mut++; }
        break;
      }
      case 7: {  // assignment from an expression
        M b = a;
        double f = s.pick({2., -1., 0.5});
        s.desc << "A = A+A*" << f << "; ";
        b = a + a * f;
        for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = (double) m(i, j) + (double) m(i, j) * f;
        a = b;
        mut++;
        break;
      }
      case 8: {  // construction from an expression
        s.note("A = M(-A)");
        M b(-a);
        a = b;
        for (auto &v: m.d) v = -v;
        mut++;
        break;
      }
      case 9: {
        if (fixed) break;
        int r = s.size(1, 8), c = s.chance(30) ? r : s.size(1, 8);
        ML nm = any(s, r, c);
        for (auto &v: nm.d) v = (double) v;
        s.note("A = " + mat::str(nm));
        a = down<M>(nm);
        m = nm;
        mut++;
        break;
      }
      default: {
        M b(a), c;
        c = a;
        b.at(0, 0) += 1;
        read_all(a, m);
        read_all(c, m);
        c.SetNull();
        read_all(a, m);
      }
    }
    read_all(a, m);
    extract(s, a, m);
  }
  s.nontrivial(mut >= 2 && m.size() > 1);
}
#if PART(4)
TARGET(history_mn, 4000) { bool large = s.chance(3); int m = large ? s.size(13, 150) : s.size(1, 12, 40), n = s.chance(40) ? m : large ? s.size(13, 150) : s.size(1, 12, 40); history<MatrixMN<double>>(s, m, n); }
TARGET(history_33, 3000) { history<Matrix33<double>>(s, 3, 3); }
TARGET(history_66, 2000) { history<Matrix66<double>>(s, 6, 6); }
#endif
