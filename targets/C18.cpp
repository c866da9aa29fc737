// C18: exponential integrals (Ei, E1, exp(-x) Ei and their approximations) and Struve functions.
// scale: 60
#include "pbt.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
PBT_PROPERTY("C18",
             "arguments log-uniform and uniform over every interval of the piecewise approximations, at and next to their bounds (1, 3, 4, 6, 12, 24), and beyond; references: convergent series, continued fractions "
             "and integral representations evaluated in long double; arguments outside of the domain must end the process with a message; non-trivial: within 1e-3 of a bound, or at least two approximations compared")
typedef long double LD;
static const LD PI = 3.14159265358979323846264338327950288L, GE = 0.57721566490153286060651209008240243L;

// exp(-x) Ei(x), x > 0
static LD ref_expEi(LD x) {
  if (x < 55) {
    LD t = 1, sum = 0;
    for (int k = 1; k < 400; ++k) { t *= x / k; LD a = t / k; sum += a; if (k > x && a < sum * 1e-22L) break; }
    return std::exp(-x) * (GE + std::log(x) + sum);
  }
  LD t = 1, sum = 1;
  for (int k = 1; k < 200; ++k) { LD n = t * k / x; if (n >= t) break; t = n; sum += t; if (t < 1e-22L) break; }
  return sum / x;
}
// exp(x) E1(x), x > 0
static LD ref_expE1(LD x) {
  if (x <= 1.5L) {
    LD t = 1, sum = 0;
    for (int k = 1; k < 100; ++k) { t *= -x / k; sum -= t / k; }
    return std::exp(x) * (-GE - std::log(x) + sum);
  }
  LD b = x + 1, c = 1e300L, d = 1 / b, h = d;  // Lentz
  for (int i = 1; i < 500; ++i) {
    LD an = -(LD) i * i;
    b += 2;
    d = 1 / (an * d + b);
    c = b + an / c;
    LD del = c * d;
    h *= del;
    if (std::fabs(del - 1) < 1e-20L) break;
  }
  return h;
}
// Struve functions from their integral representation (periodic integrands on [0, pi/2], Gauss-Legendre by panels)
static void ref_struve(LD x, LD &h0, LD &h1) {
  static const LD gx[5] = {0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L, 0.8650633666889845107320967L, 0.9739065285171717200779640L};
  static const LD gw[5] = {0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L, 0.1494513491505805931457763L, 0.0666713443086881375935688L};
  int panels = 4 + (int) (x / 3);
  LD w = PI / 2 / panels;
  h0 = h1 = 0;
  for (int p = 0; p < panels; ++p)
    for (int i = 0; i < 5; ++i)
      for (int sg = -1; sg <= 1; sg += 2) {
        LD t = w * (p + 0.5L + sg * gx[i] / 2);
        LD f = std::sin(x * std::cos(t)), sn = std::sin(t);
        h0 += gw[i] * w / 2 * f;
        h1 += gw[i] * w / 2 * f * sn * sn;
      }
  h0 *= 2 / PI;
  h1 *= 2 * x / PI;
}

static double argument(pbt::Src &s, double lo, double hi, std::initializer_list<double> bounds) {
  double v;
  switch (s.draw(5)) {
    case 0: {
      double b = s.pick(bounds);
      switch (s.draw(5)) {
        case 0: v = b; break;
        case 1: v = std::nextafter(b, 0.); break;
        case 2: v = std::nextafter(b, 1e9); break;
        default: v = b * (1 + s.uniform(-1e-3, 1e-3));
      }
      s.nontrivial();
      s.label("at a bound");
      break;
    }
    case 1: v = lo * std::pow(hi / lo, s.unit()); break;
    case 2: v = s.uniform(0.05, 8); break;
    case 3: v = s.uniform(0.5, 40); break;
    default: v = (double) s.integer(1, 60);
  }
  return std::min(hi, std::max(lo, v));
}

TARGET(exponential_integrals, 40000) {
  double x = argument(s, 1.1e-8, 600, {1, 4, 6, 12, 24, 0.372507410781366634});
  s.show("x", x);
  s.nontrivial();
  LD e = ref_expEi(x), ei = e * std::exp((LD) x), e1x = ref_expE1(x), e1 = e1x * std::exp(-(LD) x);
  // near its zero (0.3725) Ei is known to an absolute accuracy only; elsewhere relative
  LD t = std::fabs(ei) + (x < 1 ? 1.L : 0.L);
  pbt::near(Ei<double>(x), ei, 1e-13L * t * (1 + x * 1e-2L), "Ei");
  pbt::near(expEi<double>(x), e, 3e-14L * t / std::exp((LD) x), "exp(-x) Ei(x)");
  pbt::near(Ei_approximation<double>(x), ei, 3e-14L * t * (1 + x * 1e-2L), "approximation of Ei");
  pbt::near(E1<double>(x), e1, 1e-13L * std::fabs(e1) * (1 + x * 1e-2L), "E1");
  pbt::near(E1_approximation<double>(x), e1, 3e-14L * std::fabs(e1) * (1 + x * 1e-2L), "approximation of E1");
}
TARGET(exp_ei_large, 10000) {  // exp(-x) Ei(x) where Ei alone overflows
  double x = s.positive(1.4, 8);
  s.show("x", x);
  s.nontrivial();
  LD e = ref_expEi(x);
  pbt::near(expEi<double>(x), e, 1e-14L * e, "exp(-x) Ei(x)");
}
TARGET(struve, 12000) {
  double x = s.chance(3) ? 0. : s.chance(1) ? s.positive(2, 3.7) : s.draw(3000) == 2999 ? s.positive(3.5, 5) : argument(s, 1e-6, 150, {3});
  s.show("x", x);
  s.nontrivial(x > 0);
  LD h0, h1;
  ref_struve(x, h0, h1);
  pbt::near(Struve_zero_order<double>(x), h0, 1.5e-8L, "Struve function of order 0");
  pbt::near(Struve_first_order<double>(x), h1, 3e-8L, "Struve function of order 1");
  pbt::near(Struve_zero_order_derivative<double>(x), 2 / PI - h1, 3e-8L, "derivative of the Struve function of order 0");
}
TARGET_FORK(outside, 120) {  // outside of the domain of the approximations the process stops with a message
  int f = (int) s.draw(4);
  double x = s.chance(30) && f < 2 ? 0. : -s.positive(-6, 2);
  s.show("function", f);
  s.show("x", x);
  s.nontrivial();
  auto r = pbt::in_child([&]() {
    if (f == 0) Ei_approximation<double>(x);
    else if (f == 1) E1_approximation<double>(x);
    else if (f == 2) Struve_zero_order<double>(x);
    else Struve_first_order<double>(x);
  });
  CHECK(r.kind == pbt::ChildResult::EXITED || r.kind == pbt::ChildResult::THREW, "outside of its domain the function " << pbt::str(r));
}
