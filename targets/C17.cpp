// C17: Bessel, Hankel, Legendre and Chebyshev functions, factorial and gamma, and their derivatives.
// scale: 48
#include "pbt.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
PBT_PROPERTY("C17",
             "orders -12..60, integer (signed and unsigned) and real, and arguments from 1e-3 to 600 (negative and zero ones where defined); values and derivatives against the long double functions of the C++ "
             "standard library and integral representations, the Wronskians of the pairs of solutions, recurrences in long double for the orthogonal polynomials (|x| <= 1 and beyond), products for the factorial; "
             "non-trivial: order other than 0 and 1, or negative or real order")
typedef long double LD;
static const LD PI = 3.14159265358979323846264338327950288L;

// ---- references, nu of any sign, x > 0 ------------------------------------------------------
static bool isint(LD nu) { return nu == std::floor(nu); }
static LD cospi(LD nu) { LD r = std::fmod(nu, 2.L); if (std::fabs(r) == 0.5L || std::fabs(r) == 1.5L) return 0; return std::cos(PI * r); }
static LD sinpi(LD nu) { LD r = std::fmod(nu, 2.L); if (isint(r)) return 0; return std::sin(PI * r); }
static LD Y(LD nu, LD x);
static LD J(LD nu, LD x) {
  if (nu >= 0) return std::cyl_bessel_jl(nu, x);
  if (isint(nu)) return (std::fmod(-nu, 2.L) == 1 ? -1 : 1) * std::cyl_bessel_jl(-nu, x);
  return cospi(-nu) * std::cyl_bessel_jl(-nu, x) - sinpi(-nu) * std::cyl_neumannl(-nu, x);
}
static LD Y(LD nu, LD x) {
  if (nu >= 0) return std::cyl_neumannl(nu, x);
  if (isint(nu)) return (std::fmod(-nu, 2.L) == 1 ? -1 : 1) * std::cyl_neumannl(-nu, x);
  return sinpi(-nu) * std::cyl_bessel_jl(-nu, x) + cospi(-nu) * std::cyl_neumannl(-nu, x);
}
static LD K(LD nu, LD x) { return std::cyl_bessel_kl(std::fabs(nu), x); }
static LD I(LD nu, LD x) {
  if (nu >= 0) return std::cyl_bessel_il(nu, x);
  if (isint(nu)) return std::cyl_bessel_il(-nu, x);
  return std::cyl_bessel_il(-nu, x) + 2 / PI * sinpi(-nu) * std::cyl_bessel_kl(-nu, x);
}
static LD dJ(LD nu, LD x) { return (J(nu - 1, x) - J(nu + 1, x)) / 2; }
static LD dY(LD nu, LD x) { return (Y(nu - 1, x) - Y(nu + 1, x)) / 2; }
static LD dI(LD nu, LD x) { return (I(nu - 1, x) + I(nu + 1, x)) / 2; }
static LD dK(LD nu, LD x) { return -(K(nu - 1, x) + K(nu + 1, x)) / 2; }

static const LD R = 1e-10L;

static double argument(pbt::Src &s) {
  switch (s.draw(5)) {
    case 0: return (double) s.integer(1, 60);
    case 1: return s.positive(-3, 0);
    case 2: return s.uniform(0.5, 12);
    case 3: return s.uniform(5, s.chance(40) ? 600 : 100);
    default: return s.positive(-2, 2);
  }
}
template<class O>
static void check(pbt::Src &s, O order, double x) {
  LD nu = (LD) order;
  LD sj = std::fabs(J(nu, x)) + std::fabs(J(nu + 1, x)), sy = std::fabs(Y(nu, x)) + (x > std::fabs((double) nu) ? std::fabs(Y(nu + 1, x)) : 0);
  LD sdj = std::fabs(J(nu - 1, x)) + std::fabs(J(nu + 1, x)), sdy = std::fabs(Y(nu - 1, x)) + std::fabs(Y(nu + 1, x));
  double j = Cyl_Bessel_first_kind<O, double, double>(order, x), y = Cyl_Bessel_second_kind<O, double, double>(order, x);
  double dj = Cyl_Bessel_first_kind_derivative<O, double, double>(order, x), dy = Cyl_Bessel_second_kind_derivative<O, double, double>(order, x);
  double i = Cyl_modified_Bessel_first_kind<O, double, double>(order, x), k = Cyl_modified_Bessel_second_kind<O, double, double>(order, x);
  double di = Cyl_modified_Bessel_first_kind_derivative<O, double, double>(order, x), dk = Cyl_modified_Bessel_second_kind_derivative<O, double, double>(order, x);
  pbt::near(j, J(nu, x), R * sj, "Bessel J");
  pbt::near(y, Y(nu, x), R * sy, "Bessel Y");
  pbt::near(i, I(nu, x), R * (std::fabs(I(nu, x)) + (nu < 0 ? K(nu, x) * std::fabs(sinpi(nu)) : 0)), "modified Bessel I");
  pbt::near(k, K(nu, x), R * K(nu, x), "modified Bessel K");
  pbt::near(dj, dJ(nu, x), R * sdj, "derivative of J");
  pbt::near(dy, dY(nu, x), R * sdy, "derivative of Y");
  pbt::near(di, dI(nu, x), R * (std::fabs(I(nu - 1, x)) + std::fabs(I(nu + 1, x)) + (nu < 1 ? K(nu - 1, x) * std::fabs(sinpi(nu)) : 0)), "derivative of I");
  pbt::near(dk, dK(nu, x), R * std::fabs(dK(nu, x)), "derivative of K");
  auto h = Cyl_Hankel_first_kind<O, double>(order, x), dh = Cyl_Hankel_first_kind_derivative<O, double>(order, x);
  pbt::near(h.real(), J(nu, x), R * sj, "real part of the Hankel function");
  pbt::near(h.imag(), Y(nu, x), R * sy, "imaginary part of the Hankel function");
  pbt::near(dh.real(), dJ(nu, x), R * sdj * (1 + std::fabs(nu) / x), "real part of the derivative of the Hankel function");
  pbt::near(dh.imag(), dY(nu, x), R * sdy, "imaginary part of the derivative of the Hankel function");
  // Wronskians, on the values of the library alone
  pbt::near((LD) j * dy - (LD) dj * y, 2 / (PI * x), R * (std::fabs((LD) j * dy) + std::fabs((LD) dj * y)), "Wronskian of J and Y");
  pbt::near((LD) i * dk - (LD) di * k, -1 / (LD) x, R * (std::fabs((LD) i * dk) + std::fabs((LD) di * k)), "Wronskian of I and K");
}
TARGET(bessel, 12000) {
  double x = argument(s);
  int kind = (int) s.draw(4);
  if (kind == 0) {
    int n = (int) s.integer(0, s.chance(15) ? 60 : 20);
    if (n > 20) x = std::max(x, n * 0.25);
    s.show("order", n); s.show("x", x);
    s.nontrivial(n > 1);
    check<int>(s, n, x);
    if (n <= 8 && x > 0.1 && x < 60) {  // single precision
      float xf = (float) x;
      const LD F = 2e-5L * (1 + x);
      pbt::near(Cyl_Bessel_first_kind_derivative<int, float, float>(n, xf), dJ(n, xf), F * (std::fabs(J(n - 1, xf)) + std::fabs(J(n + 1, xf))), "derivative of J, float");
      pbt::near(Cyl_Bessel_second_kind_derivative<int, float, float>(n, xf), dY(n, xf), F * (std::fabs(Y(n - 1, xf)) + std::fabs(Y(n + 1, xf))), "derivative of Y, float");
      pbt::near(Cyl_modified_Bessel_first_kind_derivative<int, float, float>(n, xf), dI(n, xf), F * std::fabs(dI(n, xf)), "derivative of I, float");
      pbt::near(Cyl_modified_Bessel_second_kind_derivative<int, float, float>(n, xf), dK(n, xf), F * std::fabs(dK(n, xf)), "derivative of K, float");
    }
  } else if (kind == 1) {
    unsigned n = (unsigned) s.integer(0, 20);
    s.show("unsigned order", n); s.show("x", x);
    s.nontrivial(n > 1);
    check<unsigned>(s, n, x);
  } else if (kind == 2) {
    int n = -(int) s.integer(1, 12);
    x = std::max(x, 0.1);
    s.show("order", n); s.show("x", x);
    s.nontrivial();
    check<int>(s, n, x);
  } else {
    double nu = s.chance(40) ? 0.5 * (double) s.integer(0, 20) : s.uniform(0, 12);
    if (s.chance(20)) {  // near an integer or half an integer, without being one
      nu = 0.5 * (double) s.integer(0, 16);
      nu = std::fabs(nu + (nu == 0 || s.boolean() ? 1 : -1) * s.positive(-7, -1));  // nearer, the reference itself loses its digits
    }
    x = std::max(x, 0.05);
    s.show("real order", nu); s.show("x", x);
    s.nontrivial();
    check<double>(s, nu, x);
  }
}
// J_n and I_n from their integral representations: the trapezoidal rule converges geometrically
TARGET(integral, 6000) {
  int n = (int) s.integer(0, 15);
  double x = s.chance(10) ? 0. : s.uniform(-30, 30);
  s.show("order", n); s.show("x", x);
  s.nontrivial(n > 1);
  LD j = 0, dj = 0, i = 0, di = 0;
  const int N = 96;
  for (int k = 0; k < N; ++k) {
    LD t = 2 * PI * k / N;
    LD p = n * t - x * std::sin(t);
    j += std::cos(p);
    dj += std::sin(p) * std::sin(t);
    i += std::exp(x * (std::cos(t) - 1)) * std::cos(n * t);
    di += std::exp(x * (std::cos(t) - 1)) * std::cos(n * t) * std::cos(t);
  }
  LD e = std::exp((LD) x);
  pbt::near(Cyl_Bessel_first_kind<int, double, double>(n, x), j / N, 1e-12L, "Bessel J");
  pbt::near(Cyl_Bessel_first_kind_derivative<int, double, double>(n, x), dj / N, 1e-12L, "derivative of J");
  LD sc = std::exp(std::fabs((LD) x));
  pbt::near(Cyl_modified_Bessel_first_kind<int, double, double>(n, x), i * e / N, 1e-12L * sc, "modified Bessel I");
  pbt::near(Cyl_modified_Bessel_first_kind_derivative<int, double, double>(n, x), di * e / N, 1e-12L * sc, "derivative of I");
}
// arguments in [-1, 1], with many near the ends and the centre
static double unit_arg(pbt::Src &s) {
  double x = s.real(-1, 1);
  switch (s.draw(4)) {
    case 0: return s.sign() * (1 - s.positive(-16, 0));
    case 1: return s.chance(50) ? s.sign() * s.positive(-16, 0) : x;
    default: return x;
  }
}
TARGET(legendre, 20000) {
  int n = (int) s.integer(0, s.chance(10) ? 100 : 60);
  double x = unit_arg(s);
  s.show("order", n); s.show("x", x);
  s.nontrivial(n > 1);
  LD p0 = 1, p1 = x, d0 = 0, d1 = 1;
  for (int k = 1; k < n; ++k) {
    LD p2 = ((2 * k + 1) * (LD) x * p1 - k * p0) / (k + 1), d2 = d0 + (2 * k + 1) * p1;
    p0 = p1; p1 = p2; d0 = d1; d1 = d2;
  }
  LD p = n == 0 ? 1 : p1, d = n == 0 ? 0 : d1;
  pbt::near(Legendre_polynomial<int, double>(n, x), p, 1e-13L * (1 + n), "Legendre polynomial");
  pbt::near(Legendre_polynomial_derivative<int, double>(n, x), d, 1e-13L * (1 + n) * (1 + n) * (1 + n), "derivative of the Legendre polynomial");
  if (n > 0) pbt::near(Legendre_polynomial<int, double>(-n - 1, x), p, 1e-13L * (1 + n), "Legendre polynomial of negative order");
}
TARGET(chebyshev, 20000) {
  unsigned n = (unsigned) s.integer(0, 60);
  double x = s.chance(80) ? unit_arg(s) : s.chance(20) ? s.sign() * (1 + s.positive(-4, 0)) : s.uniform(-3, 3);
  s.show("order", n); s.show("x", x);
  s.nontrivial(n > 1);
  LD t0 = 1, t1 = x, d0 = 0, d1 = 1, m = 1, md = 1;
  for (unsigned k = 1; k < n; ++k) {
    LD t2 = 2 * (LD) x * t1 - t0, d2 = 2 * t1 + 2 * (LD) x * d1 - d0;
    t0 = t1; t1 = t2; d0 = d1; d1 = d2;
  }
  LD t = n == 0 ? 1 : t1, d = n == 0 ? 0 : d1;
  m = std::max<LD>(1, std::fabs(t));
  md = std::max<LD>((LD) n * n, std::fabs(d) * n);
  LD tol = 1e-13L * (1 + n) * (1 + n);
  pbt::near(Chebyshev_polynomial<unsigned, double>(n, x), t, tol * m, "Chebyshev polynomial");
  pbt::near(Chebyshev_polynomial_derivative<unsigned, double>(n, x), d, tol * md, "derivative of the Chebyshev polynomial");
  double xs = 0.5 * (x + 1);
  LD back = 2 * (LD) xs - 1;
  pbt::near(Chebyshev_polynomial_shifted<unsigned, double>(n, xs), t, tol * m + std::fabs(back - x) * md + 4 * pbt::EPS * md, "shifted Chebyshev polynomial");
  if (n >= 1) {
    double a = s.uniform(-3, 3), b = s.uniform(-3, 3);
    pbt::near(Chebyshev_polynomial_next<double>(x, a, b), 2 * (LD) x * a - b, 8 * pbt::EPS * (2 * std::fabs(x * a) + std::fabs(b)), "next Chebyshev polynomial");
    double tn = Chebyshev_polynomial<unsigned, double>(n, x), tn1 = Chebyshev_polynomial<unsigned, double>(n - 1, x);
    pbt::near(Chebyshev_polynomial_next<double>(x, tn, tn1), Chebyshev_polynomial<unsigned, double>(n + 1, x), 4 * tol * m * (1 + std::fabs(x)) * 7, "recurrence of the Chebyshev polynomials");
  }
}
TARGET(gamma, 8000) {
  int n = (int) s.integer(0, 170);
  s.show("n", n);
  LD f = 1;
  for (int k = 2; k <= n; ++k) f *= k;
  double got = Factorial<int, double>(n);
  pbt::near(got, f, n <= 22 ? 0.L : 1e-14L * f, "factorial");
  pbt::near(Factorial<unsigned, double>((unsigned) n), f, n <= 22 ? 0.L : 1e-14L * f, "factorial of an unsigned integer");
  if (n >= 1) pbt::near(Gamma<double>((double) n), f / n, 1e-13L * f / n, "gamma of an integer");
  double x = s.chance(60) ? s.uniform(0.01, 150) : s.uniform(-15, 2);
  s.show("x", x);
  double dist = std::fabs(x - std::round(x));
  s.nontrivial(n > 1);
  if (x > 0.5 || dist > 1e-3) {
    LD want = std::tgammal((LD) x);
    pbt::near(Gamma<double>(x), want, 1e-12L * std::fabs(want) / (x < 0.5 ? dist : 1), "gamma");
    pbt::near(Gamma<double>(x) * (LD) x, std::tgammal((LD) x + 1), 1e-12L * std::fabs(want * x) / (x < 0.5 ? dist : 1), "recurrence of gamma");
  }
}
