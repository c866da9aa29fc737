// C12: vector classes.
// scale: 32
// parts: 2
#include "pbt.h"
#include "MathUtils/Vector2d.h"
#include "MathUtils/Vector3d.h"
#include "MathUtils/Vector6d.h"
#include "MathUtils/VectorN.h"
using namespace mathutils;
PBT_PROPERTY("C12",
             "vectors of dimension 2, 3, 6 (fixed) and 1..40 (dynamic) with mixed signs, zeros, repeated and extreme components, and histories of writes, resets, sorts, reversals, normalisations, sums and copies "
             "against a plain array model; norms, inner/outer/diagonal products, projected angles and comparisons against long double references; non-trivial: at least two components of different sign or magnitude")
typedef long double LD;
static const LD PI_L = std::acos(-1.0L);

static std::vector<double> comps(pbt::Src &s, int n) {
  std::vector<double> v(n);
  int kind = (int) s.draw(4);
  for (auto &x: v) switch (kind) {
    case 0: x = (double) s.integer(-9, 9); break;
    case 1: x = s.scaled(-6, 6); break;
    case 2: x = -s.positive(-3, 3); break;  // all negative
    default: x = s.uniform(-1, 1);
  }
  return v;
}
static bool mixed(const std::vector<double> &v) { for (double x: v) if (x != v[0]) return true; return false; }
template<class V>
static V make(const std::vector<double> &c) {
  V v;
  for (size_t i = 0; i < c.size(); ++i) v.at((unsigned) i) = c[i];
  return v;
}
template<class V>
static void same(const V &v, const std::vector<double> &m, const char *w) {
  CHECK((size_t) v.size() == m.size(), w << ": size " << v.size() << ", expected " << m.size());
  for (size_t i = 0; i < m.size(); ++i) CHECK(v.at((unsigned) i) == m[i], w << ": component " << i << " is " << v.at((unsigned) i) << ", expected " << m[i]);
}
static LD norm(const std::vector<double> &m) { LD a = 0; for (double x: m) a += (LD) x * x; return std::sqrt(a); }
static double inf(const std::vector<double> &m) { double a = 0; for (double x: m) a = std::max(a, std::fabs(x)); return a; }

template<class V>
static void common(pbt::Src &s, V &v, std::vector<double> &m) {  // shared reads
  same(v, m, "components");
  const V &cv = v;
  CHECK(cv.infNorm() == inf(m), "infinity norm is " << cv.infNorm() << ", expected " << inf(m));
  pbt::near(cv.norm(), norm(m), 10 * pbt::EPS * norm(m) * (double) m.size() + 1e-300L, "norm");
  // comparison
  V w = v;
  CHECK(v.IsEqual(w), "a vector is not equal to its copy");
  LD nn = norm(m);
  if (nn > 0) {
    double eps = s.pick({1e-12, 1e-9, 1e-3, 0.1});
    bool want = s.boolean();
    unsigned i = (unsigned) s.draw(m.size());
    w.at(i) += (double) (nn * eps * (want ? 0.3L : 4.L));
    CHECK(v.IsEqual(w, eps) == want, "IsEqual(" << eps << ") is " << !want);
    if (eps == 1e-12) CHECK(v.IsEqual(w) == want, "IsEqual by default is " << !want);
    same(v, m, "after comparison");
  }
}
template<class V, class Set>
static void fixed_history(pbt::Src &s, int n, Set set) {
  V zero;
  same(zero, std::vector<double>(n, 0.), "default vector");
  std::vector<double> m = comps(s, n);
  V v = make<V>(m);
  s.show("v", m);
  int ops = s.size(1, 12);
  bool nt = mixed(m);
  for (int k = 0; k < ops; ++k) {
    switch (s.draw(7)) {
      case 0: { unsigned i = (unsigned) s.draw(n); double x = s.scaled(); s.desc << "at(" << i << ")=" << x << "; "; v.at(i) = x; m[i] = x; break; }
      case 1: if (s.chance(30)) { s.note("SetNull"); v.SetNull(); m.assign(n, 0.); } break;
      case 2: { m = comps(s, n); s.show("Set", m); set(v, m); break; }
      case 3: { auto o = comps(s, n); s.show("v+=", o); v = v + make<V>(o); for (int i = 0; i < n; ++i) m[i] += o[i]; break; }
      case 4: { V w(v * 2.); s.note("v=V(v*2)"); v = w; for (auto &x: m) x *= 2; break; }
      case 5: { V w = v; w.at(0) += 1; w.SetNull(); break; }
      default: { v = -v; for (auto &x: m) x = -x; }
    }
    common(s, v, m);
    nt = nt || mixed(m);
  }
  s.nontrivial(nt);
}
#if PART(1)
TARGET(history_2, 15000) { fixed_history<Vector2d<double>>(s, 2, [](Vector2d<double> &v, const std::vector<double> &m) { v.Set(m[0], m[1]); same(Vector2d<double>(m[0], m[1]), m, "constructor"); }); }
TARGET(history_3, 15000) { fixed_history<Vector3d<double>>(s, 3, [](Vector3d<double> &v, const std::vector<double> &m) { v.Set(m[0], m[1], m[2]); same(Vector3d<double>(m[0], m[1], m[2]), m, "constructor"); }); }
TARGET(history_6, 15000) {
  fixed_history<Vector6d<double>>(s, 6, [](Vector6d<double> &v, const std::vector<double> &m) {
    v.Set(m[0], m[1], m[2], m[3], m[4], m[5]);
    same(Vector6d<double>(m[0], m[1], m[2], m[3], m[4], m[5]), m, "constructor");
  });
}
#endif

template<class V>
static void products(pbt::Src &s, int n) {
  auto a = comps(s, n), b = comps(s, n);
  s.show("a", a);
  s.show("b", b);
  s.nontrivial(mixed(a) && mixed(b));
  V u = make<V>(a), v = make<V>(b);
  auto o = outer(u, v), oo = outer(u);
  CHECK(o.rows() == n && o.cols() == n, "outer product size");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    CHECK(o(i, j) == a[i] * b[j], "outer(a,b)(" << i << "," << j << ") is " << o(i, j) << ", expected " << a[i] * b[j]);
    CHECK(oo(i, j) == a[i] * a[j], "outer(a)(" << i << "," << j << ")");
  }
  LD in = 0, mag = 0;
  for (int i = 0; i < n; ++i) { in += (LD) a[i] * b[i]; mag += std::fabs((LD) a[i] * b[i]); }
  pbt::near(inner(u, v), in, 8 * pbt::EPS * mag + 1e-300L, "inner(a,b)");
  pbt::near(inner(v, u), in, 8 * pbt::EPS * mag + 1e-300L, "inner(b,a)");
  same(u, a, "first operand");
  same(v, b, "second operand");
}
#if PART(2)
TARGET(products_3, 20000) { products<Vector3d<double>>(s, 3); }
TARGET(products_6, 15000) { products<Vector6d<double>>(s, 6); }

TARGET(unit_3, 30000) {
  auto m = comps(s, 3);
  if (inf(m) == 0) m[s.draw(3)] = s.boolean() ? 1. : -3.;
  s.show("v", m);
  s.nontrivial(mixed(m));
  Vector3d<double> v = make<Vector3d<double>>(m), u = v;
  LD nn = norm(m);
  u.Normalize();
  for (int i = 0; i < 3; ++i) pbt::near(u.at(i), m[i] / nn, 8 * pbt::EPS, "normalised component");
  CHECK(u.IsUnit(), "a normalised vector is not unit");
  if (std::fabs(nn - 1) > 1e-4L) CHECK(!v.IsUnit(), "a vector of norm " << (double) nn << " is said to be unit");
  if (std::fabs(nn - 1) < 1e-6L) CHECK(v.IsUnit(), "a vector of norm " << (double) nn << " is said not to be unit");
  double f = s.pick({1. + 1e-6, 1. - 1e-6, 1.001, 0.999, 2.});
  Vector3d<double> w(u * f);
  CHECK(w.IsUnit() == (std::fabs(f - 1) < 1e-5), "IsUnit of a vector of norm " << f);
}
TARGET(angles_3, 40000) {
  auto m = comps(s, 3);
  s.show("v", m);
  s.nontrivial(mixed(m));
  const Vector3d<double> v = make<Vector3d<double>>(m);
  LD ax = std::atan2((LD) m[2], (LD) m[1]), ay = std::atan2((LD) m[0], (LD) m[2]), az = std::atan2((LD) m[1], (LD) m[0]);
  LD tol = 8 * pbt::EPS * 4;
  pbt::near(v.GetProjectedAngleAroundX(RAD), ax, tol, "projected angle around x");
  pbt::near(v.GetProjectedAngleAroundY(RAD), ay, tol, "projected angle around y");
  pbt::near(v.GetProjectedAngleAroundZ(RAD), az, tol, "projected angle around z");
  LD d = 180 / PI_L;
  pbt::near(v.GetProjectedAngleAroundX(DEG), ax * d, tol * d, "projected angle around x, degrees");
  pbt::near(v.GetProjectedAngleAroundY(DEG), ay * d, tol * d, "projected angle around y, degrees");
  pbt::near(v.GetProjectedAngleAroundZ(DEG), az * d, tol * d, "projected angle around z, degrees");
}

template<class Scalar>
static void dyn(pbt::Src &s) {
  typedef VectorN<Scalar> V;
  int n = s.size(1, 40, 300);
  std::vector<double> m = comps(s, n);
  if (std::is_same<Scalar, int>::value) for (auto &x: m) x = std::trunc(std::min(1000., std::max(-1000., x)));
  V v((unsigned) n);
  for (int i = 0; i < n; ++i) v.at(i) = (Scalar) m[i];
  s.show("v", m);
  int ops = s.size(1, 12);
  bool nt = false;
  auto chk = [&](const V &a, const std::vector<double> &b, const char *w) {
    CHECK((size_t) a.size() == b.size(), w << ": size");
    for (size_t i = 0; i < b.size(); ++i) CHECK(a.at((unsigned) i) == (Scalar) b[i], w << ": component " << i << " is " << a.at((unsigned) i) << ", expected " << b[i]);
  };
  for (int k = 0; k < ops; ++k) {
    switch (s.draw(10)) {
      case 0: { int i = (int) s.draw(n); double x = (double) s.integer(-50, 50); s.desc << "at(" << i << ")=" << x << "; "; v.at(i) = (Scalar) x; m[i] = x; break; }
      case 1: s.note("Sort"); v.Sort(); std::sort(m.begin(), m.end()); nt = n > 1; break;
      case 2: s.note("Sort(true)"); v.Sort(true); std::sort(m.begin(), m.end()); nt = n > 1; break;
      case 3: s.note("Sort(false)"); v.Sort(false); std::sort(m.begin(), m.end(), std::greater<double>()); nt = n > 1; break;
      case 4: s.note("Reverse"); v.Reverse(); std::reverse(m.begin(), m.end()); nt = n > 1; break;
      case 5: if (s.chance(25)) { s.note("SetNull"); v.SetNull(); m.assign(n, 0.); } break;
      case 6: if (s.chance(25)) { s.note("SetOnes"); v.SetOnes(); m.assign(n, 1.); } break;
      case 7: {
        s.note("GetMatrixSquare");
        auto a = v.GetMatrixSquare(), b = GetMatrixSquare(v);
        CHECK(a.rows() == n && a.cols() == n && b.rows() == n && b.cols() == n, "size of the square matrix of a vector");
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(a(i, j) == (Scalar) m[i] * (Scalar) m[j] && b(i, j) == a(i, j), "v*v' at (" << i << "," << j << ")");
        break;
      }
      case 8: {
        s.note("GetDiagonalMatrix");
        auto a = v.GetDiagonalMatrix(), b = GetDiagonalMatrix(v);
        CHECK(a.rows() == n && a.cols() == n && b.rows() == n && b.cols() == n, "size of the diagonal matrix of a vector");
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(a(i, j) == (i == j ? (Scalar) m[i] : 0) && b(i, j) == a(i, j), "diagonal matrix at (" << i << "," << j << ")");
        auto t = Transpose(v);
        CHECK(t.rows() == 1 && t.cols() == n, "size of the transposed vector");
        for (int i = 0; i < n; ++i) CHECK(t(0, i) == (Scalar) m[i], "transposed vector");
        break;
      }
      default: { V w(v), z; z = v + w; chk(v, m, "after a copy"); w.SetNull(); for (int i = 0; i < n; ++i) CHECK(z.at(i) == 2 * (Scalar) m[i], "v+v"); if (s.boolean() && inf(m) < 1000) { v = z; for (auto &x: m) x *= 2; } }
    }
    chk(v, m, "components");
    CHECK(v.infNorm() == (Scalar) inf(m), "infinity norm");
  }
  s.nontrivial(nt && mixed(m));
}
TARGET(dynamic_double, 15000) { dyn<double>(s); }
TARGET(dynamic_int, 6000) { dyn<int>(s); }
// complex components: no order, hence neither sort nor comparison
TARGET(dynamic_complex, 8000) {
  typedef std::complex<double> C;
  int n = s.size(1, 40, 300);
  std::vector<C> m(n);
  auto value = [&]() { double a = s.chance(50) ? (double) s.integer(-9, 9) : s.scaled(-4, 4), b = s.chance(50) ? (double) s.integer(-9, 9) : s.scaled(-4, 4); return C(a, b); };
  VectorN<C> v((unsigned) n);
  bool im = false;
  for (int i = 0; i < n; ++i) { m[i] = value(); v.at(i) = m[i]; im |= m[i].imag() != 0; }
  s.show("v", m);
  auto chk = [&](const VectorN<C> &a, const char *w) {
    CHECK((int) a.size() == n, w << ": size");
    LD top = 0;
    for (int i = 0; i < n; ++i) { CHECK(a.at((unsigned) i) == m[i], w << ": component " << i << " is " << a.at((unsigned) i) << ", expected " << m[i]); top = std::max<LD>(top, std::abs(m[i])); }
    C in = a.infNorm();
    pbt::near(in.real(), top, 8 * pbt::EPS * top, "infinity norm");
    CHECK(in.imag() == 0, "infinity norm is not real");
  };
  int ops = s.size(1, 10);
  for (int k = 0; k < ops; ++k) {
    switch (s.draw(6)) {
      case 0: { int i = (int) s.draw(n); C x = value(); s.desc << "at(" << i << ")=" << x << "; "; v.at(i) = x; m[i] = x; break; }
      case 1: s.note("Reverse"); v.Reverse(); std::reverse(m.begin(), m.end()); break;
      case 2: if (s.chance(25)) { s.note("SetNull"); v.SetNull(); m.assign(n, C(0)); } break;
      case 3: if (s.chance(25)) { s.note("SetOnes"); v.SetOnes(); m.assign(n, C(1)); } break;
      case 4: {
        s.note("products");
        auto a = v.GetMatrixSquare(), b = GetMatrixSquare(v), d = v.GetDiagonalMatrix(), e = GetDiagonalMatrix(v), t = Transpose(v);
        CHECK(a.rows() == n && a.cols() == n && b.rows() == n && b.cols() == n && d.rows() == n && d.cols() == n && e.rows() == n && e.cols() == n && t.rows() == 1 && t.cols() == n, "sizes");
        for (int i = 0; i < n; ++i) {
          CHECK(t(0, i) == m[i], "transposed vector");
          for (int j = 0; j < n; ++j) {
            LD tol = 8 * pbt::EPS * (LD) std::abs(m[i]) * std::abs(m[j]);
            C w = m[i] * m[j];
            CHECK(std::abs(a(i, j) - w) <= tol && std::abs(b(i, j) - w) <= tol, "v*v' at (" << i << "," << j << ") is " << a(i, j) << " and " << b(i, j) << ", expected " << w);
            CHECK(d(i, j) == (i == j ? m[i] : C(0)) && e(i, j) == d(i, j), "diagonal matrix at (" << i << "," << j << ")");
          }
        }
        break;
      }
      default: { VectorN<C> w(v), z; z = v + w; w.SetNull(); for (int i = 0; i < n; ++i) CHECK(z.at(i) == m[i] + m[i], "v+v"); }
    }
    chk(v, "components");
  }
  s.nontrivial(im && n > 1);
}
TARGET(dynamic_equal, 10000) {
  int n = s.size(1, 40, 300);
  auto m = comps(s, n);
  VectorN<double> v((unsigned) n);
  for (int i = 0; i < n; ++i) v.at(i) = m[i];
  s.show("v", m);
  s.nontrivial(mixed(m));
  common(s, v, m);
}
#endif
