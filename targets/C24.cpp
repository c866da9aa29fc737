// C24: element-wise operations on std::vector, parts of complex vectors, sign/saturation/square root and comparison helpers.
// scale: 24
#include "pbt.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
PBT_PROPERTY("C24",
             "vectors of 0 to 60 elements of double, float, int and complex type, scalars of every sign; each operation recomputed element by element and its inputs compared before and after; complex numbers in all quadrants, "
             "on the axes and null; scalars of 64-bit integer and floating types around the bounds of the saturation; pairs at, just inside and just outside of the tolerance of the comparison; non-trivial: at "
             "least two distinct elements, or a value at or beyond a bound")
typedef long double LD;

template<class T> static T val(pbt::Src &s);
template<> double val<double>(pbt::Src &s) { return s.scaled(-3, 3); }
template<> float val<float>(pbt::Src &s) { return (float) s.scaled(-3, 3); }
template<> int val<int>(pbt::Src &s) { return (int) s.integer(-1000, 1000); }
template<> std::complex<double> val<std::complex<double>>(pbt::Src &s) { double a = s.scaled(-2, 2), b = s.scaled(-2, 2); return {a, b}; }

template<class T> struct Prec { static double eps() { return std::is_integral<T>::value ? 0 : (double) std::numeric_limits<T>::epsilon(); } };
template<class T> struct Prec<std::complex<T>> : Prec<T> {};
template<class T>
static void algebra(pbt::Src &s) {
  int n = s.size(0, 60, 3000);
  std::vector<T> a(n), b(n);
  for (auto &x: a) x = val<T>(s);
  for (auto &x: b) { x = val<T>(s); if (x == T(0)) x = T(1); }
  T c = val<T>(s);
  s.show("a", a); s.show("b", b); s.show("c", c);
  s.nontrivial(n >= 2 && a[0] != a[n - 1]);
  const auto a0 = a, b0 = b;
  auto add = Add<T>(a, b), adds = AddScalar<T>(a, c), mi = Minus<T>(a, b), mu = Mult<T>(a, b), di = Divide<T>(a, b);
  T sum = Sum<T>(a);
  CHECK(a == a0 && b == b0, "an operand was modified");
  CHECK((int) add.size() == n && (int) adds.size() == n && (int) mi.size() == n && (int) mu.size() == n && (int) di.size() == n, "sizes");
  auto sc = a, ne = a;
  Scale<T>(sc, c);
  Negate(ne);
  CHECK((int) sc.size() == n && (int) ne.size() == n, "sizes");
  T acc = T(0);
  const double eps = Prec<T>::eps();
  LD m = 0;
  for (int i = 0; i < n; ++i) {
    CHECK(add[i] == a[i] + b[i], "Add, element " << i);
    CHECK(adds[i] == a[i] + c, "AddScalar, element " << i);
    CHECK(mi[i] == a[i] - b[i], "Minus, element " << i);
    CHECK(std::abs(mu[i] - a[i] * b[i]) <= 16 * eps * std::abs(a[i] * b[i]), "Mult, element " << i);
    CHECK(std::abs(di[i] - a[i] / b[i]) <= 16 * eps * std::abs(a[i] / b[i]), "Divide, element " << i);
    CHECK(std::abs(sc[i] - a[i] * c) <= 16 * eps * std::abs(a[i] * c), "Scale, element " << i);
    CHECK(ne[i] == -a[i], "Negate, element " << i);
    acc += a[i];
    m += std::abs(a[i]);
  }
  CHECK(std::abs(sum - acc) <= (4 * n + 4) * eps * m, "Sum " << sum << ", expected " << acc);
}
TARGET(vectors_double, 15000) { algebra<double>(s); }
TARGET(vectors_float, 8000) { algebra<float>(s); }
TARGET(vectors_int, 8000) { algebra<int>(s); }
TARGET(vectors_complex, 8000) { algebra<std::complex<double>>(s); }
// infinite and undefined elements, and operands that are one and the same vector
TARGET(special_values, 8000) {
  int n = s.size(1, 12);
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  auto value = [&]() { return s.chance(60) ? s.scaled(-3, 3) : s.pick({inf, -inf, nan, 0., 1.}); };
  std::vector<double> a(n), b(n);
  for (auto &x: a) x = value();
  for (auto &x: b) x = value();
  if (s.chance(30)) b = a;
  double c = value();
  s.show("a", a); s.show("b", b); s.show("c", c);
  bool one = s.chance(30);
  const std::vector<double> &r = one ? a : b;  // the same object
  bool special = false;
  for (double x: a) special |= !std::isfinite(x);
  for (double x: r) special |= !std::isfinite(x);
  s.nontrivial(special);
  auto add = Add<double>(a, r), adds = AddScalar<double>(a, c), mi = Minus<double>(a, r), mu = Mult<double>(a, r), di = Divide<double>(a, r);
  auto sc = a, ne = a;
  Scale<double>(sc, c);
  Negate(ne);
  double acc = 0;
  for (int i = 0; i < n; ++i) {
    auto eq = [&](double got, double want, const char *w) {
      bool ok = std::isnan(want) ? std::isnan(got) : std::isinf(want) ? got == want : std::fabs(got - want) <= 16 * pbt::EPS * std::fabs(want);
      CHECK(ok, w << ", element " << i << ": got " << got << ", expected " << want);
    };
    eq(add[i], a[i] + r[i], "Add");
    eq(adds[i], a[i] + c, "AddScalar");
    eq(mi[i], a[i] - r[i], "Minus");
    eq(mu[i], a[i] * r[i], "Mult");
    if (r[i] != 0) eq(di[i], a[i] / r[i], "Divide");
    eq(sc[i], a[i] * c, "Scale");
    eq(ne[i], -a[i], "Negate");
    acc += a[i];
  }
  if (!std::isfinite(acc)) { double sum = Sum<double>(a); CHECK(std::isnan(acc) ? std::isnan(sum) : sum == acc, "Sum " << sum << ", expected " << acc); }
}
TARGET(powers, 12000) {
  int n = s.size(0, 40, 3000);
  std::vector<double> v(n);
  bool neg = s.boolean();
  for (auto &x: v) { x = s.positive(-2, 2); if (neg && s.boolean()) x = -x; }
  double p = neg ? (double) s.integer(-3, 4) : s.uniform(-3, 4);
  s.show("v", v); s.show("p", p);
  s.nontrivial(n > 1);
  auto w = v;
  Pow<double>(w, p);
  CHECK((int) w.size() == n, "size");
  for (int i = 0; i < n; ++i) { LD e = std::pow((LD) v[i], (LD) p); pbt::near(w[i], e, 64 * pbt::EPS * std::fabs(e), "Pow, element " + std::to_string(i)); }
}
template<class T>
static void powers_of(pbt::Src &s) {  // real or complex numbers of any precision
  typedef std::complex<LD> CL;
  int n = s.size(1, 20, 3000);
  std::vector<T> v(n);
  for (auto &x: v) { x = val<T>(s); if (std::is_same<T, float>::value) x = (T) std::abs(x); if (x == T(0)) x = T(1); }
  const double ps[] = {-2, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2, 3};
  T p = s.chance(70) ? T((float) ps[s.draw(10)]) : T((float) s.uniform(-3, 3));
  s.show("v", v); s.show("p", p);
  s.nontrivial(n > 1);
  auto w = v;
  Pow<T>(w, p);
  CHECK((int) w.size() == n, "size");
  for (int i = 0; i < n; ++i) {
    std::complex<LD> e = std::pow(CL(v[i]), CL(p));
    LD cond = 1 + std::abs(CL(p)) * (std::abs(std::log(CL(v[i]))) + 2);
    CHECK(std::abs(CL(w[i]) - e) <= 32 * Prec<T>::eps() * cond * std::abs(e), "Pow, element " << i << ": got " << w[i] << ", expected " << e);
  }
}
TARGET(powers_complex, 8000) { powers_of<std::complex<double>>(s); }
TARGET(powers_float, 4000) { powers_of<float>(s); }
TARGET(complex_parts, 20000) {
  int n = s.size(0, 60, 3000);
  std::vector<std::complex<double>> z(n);
  for (auto &x: z) x = val<std::complex<double>>(s);
  s.show("z", z);
  s.nontrivial(n >= 2);
  auto r = Real<double>(z), i = Imag<double>(z), a = Amplitude<double>(z), p = Phase<double>(z), pd = Phase<double>(z, DEG), pr = Phase<double>(z, RAD);
  CHECK((int) r.size() == n && (int) i.size() == n && (int) a.size() == n && (int) p.size() == n && (int) pd.size() == n && (int) pr.size() == n, "sizes");
  for (int k = 0; k < n; ++k) {
    CHECK(r[k] == z[k].real() && i[k] == z[k].imag(), "parts of the element " << k);
    LD am = std::hypot((LD) z[k].real(), (LD) z[k].imag()), ph = std::atan2((LD) z[k].imag(), (LD) z[k].real());
    pbt::near(a[k], am, 4 * pbt::EPS * am, "amplitude of the element " + std::to_string(k));
    pbt::near(p[k], ph, 4 * pbt::EPS * std::fabs(ph), "phase of the element " + std::to_string(k));
    CHECK(p[k] == pr[k], "the default unit is not the radian");
    LD deg = ph * 180 / 3.14159265358979323846264338327950288L;
    pbt::near(pd[k], deg, 8 * pbt::EPS * std::fabs(deg), "phase in degrees of the element " + std::to_string(k));
    // round trip
    pbt::nearc(std::polar(a[k], p[k]), std::complex<LD>(z[k].real(), z[k].imag()), 8 * pbt::EPS * am, "amplitude and phase give another complex number");
  }
}
template<class T>
static void saturate(pbt::Src &s, T lo, T hi, T v, const char *type) {
  if (hi < lo) std::swap(lo, hi);
  s.note(type); s.show("v", v); s.show("min", lo); s.show("max", hi);
  s.nontrivial(v <= lo || v >= hi || lo == hi);
  T want = v < lo ? lo : v > hi ? hi : v;
  CHECK(Saturate<T>(v, lo, hi) == want, "Saturate gives " << Saturate<T>(v, lo, hi) << ", expected " << want);
}
TARGET(scalars, 60000) {
  double a = s.scaled(-3, 3), b = s.scaled(-3, 3), v = s.chance(20) ? a : s.chance(20) ? b : s.scaled(-3, 3);
  switch (s.draw(5)) {
    case 0: saturate<double>(s, a, b, v, "double"); break;
    case 1: saturate<float>(s, (float) a, (float) b, (float) v, "float"); break;
    case 2: saturate<int>(s, (int) s.integer(-100, 100), (int) s.integer(-100, 100), (int) s.integer(-200, 200), "int"); break;
    case 3: { int64_t x = (1LL << 60) + s.integer(-50, 50); saturate<int64_t>(s, x + s.integer(-3, 3), x + s.integer(-3, 60), x, "64-bit"); break; }
    default: { LD x = 1 + s.integer(-8, 8) * 1.1e-19L; saturate<LD>(s, x + s.integer(-4, 0) * 1.1e-19L, x + s.integer(0, 8) * 1.1e-19L, x + s.integer(-4, 8) * 1.1e-19L, "long double"); }
  }
  int sg = v > 0 ? 1 : v < 0 ? -1 : 0;
  CHECK(sgn<double>(v) == sg, "sgn(" << v << ") = " << sgn<double>(v));
  int k = (int) s.integer(-9, 9);
  CHECK(sgn<int>(k) == (k > 0) - (k < 0), "sgn of an integer");
  CHECK(sgn<double>(-0.) == 0 && sgn<unsigned>((unsigned) std::abs(k)) == (k != 0), "sgn");
  LD q = sg * std::sqrt(std::fabs((LD) v));
  pbt::near(SgnSqrt<double>(v), q, 4 * pbt::EPS * std::fabs(q), "SgnSqrt");
  float vf = (float) v;
  pbt::near(SgnSqrt<float>(vf), (vf < 0 ? -1 : 1) * std::sqrt(std::fabs((LD) vf)), 4e-7L * std::sqrt(std::fabs((LD) vf)), "SgnSqrt of a float");
}
TARGET(parity, 5000) {
  int64_t v = s.chance(50) ? s.integer(-20, 20) : s.integer(INT64_MIN / 4, INT64_MAX / 4);
  s.show("v", v);
  s.nontrivial(v < 0);
  bool odd = (v & 1) != 0;
  CHECK(is_odd<int64_t>(v) == odd && is_even<int64_t>(v) == !odd, "parity of " << v);
  int w = (int) (v % 100000);
  CHECK(is_odd<int>(w) == ((w & 1) != 0) && is_even<int>(w) == ((w & 1) == 0), "parity of " << w);
  unsigned u = (unsigned) v;
  CHECK(is_odd<unsigned>(u) == (u & 1) && is_even<unsigned>(u) == !(u & 1), "parity of " << u);
}
TARGET(is_close, 40000) {
  double b = s.scaled(-9, 6, 15);
  bool dflt = s.chance(30);
  double rt = dflt ? 1e-5 : s.chance(15) ? 0. : s.positive(-12, -1), at = dflt ? 1e-8 : s.chance(15) ? 0. : s.positive(-12, -1);
  LD tol = (LD) at + (LD) rt * std::fabs((LD) b);
  double f = s.pick({0., 0.5, 0.9, 0.999, 1.001, 1.1, 2., 100.});
  double sg = s.boolean() ? 1. : -1.;
  double a = (double) ((LD) b + sg * f * tol);
  s.show("a", a); s.show("b", b); s.show("rtol", rt); s.show("atol", at);
  LD d = std::fabs((LD) a - b);
  s.nontrivial(f > 0 && tol > 0);
  LD fuzz = 8 * pbt::EPS * (std::fabs((LD) a) + std::fabs((LD) b));
  bool sure_in = d + fuzz <= tol * (1 - 1e-12L) || a == b, sure_out = d - fuzz > tol * (1 + 1e-12L);
  bool got = dflt ? IsClose<double>(a, b) : IsClose<double>(a, b, rt, at);
  if (sure_in) CHECK(got, "within the tolerance but not close");
  if (sure_out) CHECK(!got, "outside of the tolerance but close");
  // vectors: close when every element is
  int n = s.size(0, 8, 600);
  std::vector<double> va(n), vb(n);
  bool all_in = true, one_out = false;
  for (int i = 0; i < n; ++i) {
    vb[i] = s.scaled(-3, 3);
    va[i] = vb[i];
    if (s.chance(12)) {
      LD t = (LD) at + (LD) rt * std::fabs((LD) vb[i]);
      double g = s.pick({0.5, 2., 50.});
      va[i] = (double) (vb[i] + g * t);
      LD dd = std::fabs((LD) va[i] - vb[i]), fz = 8 * pbt::EPS * std::fabs((LD) vb[i]);
      if (dd - fz > t * (1 + 1e-12L)) one_out = true;
      else if (!(dd + fz <= t * (1 - 1e-12L))) all_in = false;
    }
  }
  s.show("va", va); s.show("vb", vb);
  bool gv = IsClose<double>(va, vb, rt, at);
  if (one_out) CHECK(!gv, "vectors with a distant element are close");
  else if (all_in) CHECK(gv, "vectors with close elements are not close");
}
