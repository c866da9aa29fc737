// C19: evaluation of polynomials and of their derivatives (Horner).
// scale: 40
#include "pbt.h"
#include "MathUtils/Polynomial.h"
#include <complex>
using namespace mathutils;
PBT_PROPERTY("C19",
             "1 to 60 coefficients (integers, reals over several decades, terms of similar sizes at points of any decade, leading and inner zeros), real and complex points inside, on and outside of the unit circle; explicit sums of powers in long double with an error bound "
             "from the sum of the absolute terms, exact equality for small integers, product rule on shifted coefficients; non-trivial: degree of at least 2 and a point other than 0 and 1")
typedef long double LD;
typedef std::complex<LD> CL;

static std::vector<double> coefficients(pbt::Src &s, int kind, double &X) {
  X = 0;
  int n = s.size(1, 60, 400);
  std::vector<double> a(n);
  if (kind == 3) {  // terms of similar sizes at points of a modulus X, whatever its decade
    double dec = s.uniform(-1, 1) * std::min(8., 240. / n);
    X = std::pow(10., dec);
    double c = s.scaled(-20, 20, 0);
    for (int i = 0; i < n; ++i) a[i] = c * s.uniform(-3, 3) * std::pow(X, -i);
  } else
  for (auto &x: a) x = kind == 0 ? (double) s.integer(-9, 9) : kind == 1 ? s.scaled(-4, 4, 20) : s.uniform(-3, 3);
  if (s.chance(15)) a.back() = 0;
  s.show("coefficients", a);
  return a;
}
template<class C, class X>
static void sum(const std::vector<double> &a, X x, C &f, C &d, LD &mf, LD &md) {
  f = d = 0;
  mf = md = 0;
  C p = 1, q = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    f += (C) (LD) a[i] * p;
    mf += std::fabs((LD) a[i]) * std::abs(p);
    d += (C) ((LD) i * a[i]) * q;
    md += std::fabs((LD) i * a[i]) * std::abs(q);
    q = p;
    p *= (C) x;
  }
}
TARGET(real, 60000) {
  double X;
  auto a = coefficients(s, (int) s.draw(4), X);
  int n = (int) a.size();
  double x = X ? X * s.real(-2, 2) : s.chance(70) ? s.real(-2, 2) : s.scaled(-2, 3);
  if (!X && std::pow(std::max(1., std::fabs(x)), n) > 1e250) x = s.real(-1, 1);
  s.show("x", x);
  s.nontrivial(n > 2 && x != 0 && x != 1);
  LD f, d, mf, md;
  sum(a, (LD) x, f, d, mf, md);
  const auto before = a;
  pbt::near(Horner<double>(a, x), f, 3 * (n + 2) * pbt::EPS * mf + 1e-300L, "polynomial");
  pbt::near(Horner_derivative<double>(a, x), d, 3 * (n + 2) * pbt::EPS * md + 1e-300L, "derivative of the polynomial");
  pbt::near(Horner<LD>(a, (LD) x), f, 3 * (n + 2) * 1.1e-19L * mf * 4 + 1e-300L, "polynomial, long double");
  pbt::near(Horner_derivative<LD>(a, (LD) x), d, 2 * pbt::EPS * md + 1e-300L, "derivative of the polynomial, long double");
  CHECK(a == before, "the coefficients were modified");
  // (x p)' = p + x p'
  std::vector<double> sh(1, 0.);
  sh.insert(sh.end(), a.begin(), a.end());
  pbt::near(Horner_derivative<double>(sh, x), f + (LD) x * d, 6 * (n + 3) * pbt::EPS * (mf + std::fabs((LD) x) * md) + 1e-300L, "derivative of x p(x)");
}
TARGET(integers, 30000) {  // exact in double
  int n = s.size(1, 12);
  std::vector<double> a(n);
  for (auto &v: a) v = (double) s.integer(-9, 9);
  int x = (int) s.integer(-7, 7);
  s.show("coefficients", a);
  s.show("x", x);
  s.nontrivial(n > 2 && x != 0 && x != 1);
  long f = 0, d = 0, p = 1, q = 0;
  for (int i = 0; i < n; ++i) { f += (long) a[i] * p; d += i * (long) a[i] * q; q = p; p *= x; }
  CHECK(Horner<double>(a, (double) x) == (double) f, "polynomial: got " << Horner<double>(a, (double) x) << ", expected " << f);
  CHECK(Horner_derivative<double>(a, (double) x) == (double) d, "derivative: got " << Horner_derivative<double>(a, (double) x) << ", expected " << d);
}
TARGET(complex, 40000) {
  double X;
  auto a = coefficients(s, (int) s.draw(4), X);
  int n = (int) a.size();
  double r = X ? X * s.uniform(0, 2) : s.chance(50) ? 1. : s.uniform(0, 2), t = s.uniform(-3.2, 3.2);
  std::complex<double> z = !X && s.chance(20) ? std::complex<double>((double) s.integer(-2, 2), (double) s.integer(-2, 2)) : std::polar(r, t);
  s.show("re", z.real());
  s.show("im", z.imag());
  s.nontrivial(n > 2 && z.imag() != 0);
  CL f, d;
  LD mf, md;
  sum(a, CL(z.real(), z.imag()), f, d, mf, md);
  pbt::nearc(Horner<std::complex<double>>(a, z), f, 8 * (n + 2) * pbt::EPS * mf + 1e-300L, "polynomial at a complex point");
  pbt::nearc(Horner_derivative<std::complex<double>>(a, z), d, 8 * (n + 2) * pbt::EPS * md + 1e-300L, "derivative at a complex point");
}
