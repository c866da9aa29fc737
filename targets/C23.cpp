// C23: generation of vectors (linspace, logspace, arange) and sampled functions (Sinc, Heaviside, Door, Dirac, Ramp).
// scale: 20
#include "pbt.h"
#include "gen.h"
#include "MathUtils/Functions.h"
using namespace mathutils;
PBT_PROPERTY("C23",
             "bounds of any sign and scale (equal bounds included), 2 to 500 values, steps that divide the range exactly, nearly and not at all, bases above and below 1, float and double; samples on uniform and irregular grids "
             "with thresholds on, between and outside of the nodes; closed forms in long double; non-trivial: at least 3 values and a threshold or step inside of the range")
typedef long double LD;

template<class R>
static void lin(pbt::Src &s, LD eps) {
  R a = (R) (s.chance(40) ? (double) s.integer(-20, 20) : s.scaled(-3, 4));
  R b = (R) (s.chance(10) ? (double) a : (double) a + (s.chance(50) ? (double) s.integer(0, 50) : s.positive(-3, 4)));
  if (b < a) b = a;
  unsigned n = (unsigned) s.size(2, 500, 5000);
  if (n > 480 && s.chance(2)) n = (unsigned) s.integer(60000, 300000);
  s.show("start", a); s.show("stop", b); s.show("num", n);
  s.nontrivial(n > 2 && b > a);
  auto v = linspace<R>(a, b, n);
  CHECK(v.size() == n, "size " << v.size());
  CHECK(v.front() == a, "first value " << v.front());
  CHECK(v.back() == b, "last value " << v.back());
  LD m = std::max(std::fabs((LD) a), std::fabs((LD) b));
  for (unsigned i = 0; i < n; ++i) {
    pbt::near(v[i], (LD) a + ((LD) b - a) * i / (n - 1), 4 * eps * m + 1e-300L, "value " + std::to_string(i));
    CHECK(v[i] >= a - 4 * eps * m && v[i] <= b + 4 * eps * m, "value outside of the range");
  }
  // logspace
  R base = (R) s.pick({10., 2., 0.5, 2.718281828459045, 3.});
  R la = (R) s.uniform(-4, 4), lb = (R) (la + (R) s.uniform(0, 5));
  s.show("log start", la); s.show("log stop", lb); s.show("base", base);
  auto w = base == (R) 10 && s.boolean() ? logspace<R>(la, lb, n) : logspace<R>(la, lb, n, base);
  CHECK(w.size() == n, "size of logspace " << w.size());
  for (unsigned i = 0; i < n; ++i) {
    LD want = std::pow((LD) base, (LD) la + ((LD) lb - la) * i / (n - 1));
    pbt::near(w[i], want, 100 * eps * want, "logspace value " + std::to_string(i));
  }
}
TARGET(linspace_double, 25000) { lin<double>(s, std::numeric_limits<double>::epsilon()); }
TARGET(linspace_float, 8000) { lin<float>(s, std::numeric_limits<float>::epsilon()); }

TARGET(arange_step, 30000) {
  double a, h, b;
  int kind = (int) s.draw(3);
  if (kind == 0) {  // exactly representable: the number of values is known
    h = (double) s.integer(1, 16) * 0.125;
    a = (double) s.integer(-40, 40) * 0.125;
    int n = s.size(1, 300, 4000);
    double extra = s.chance(60) ? 0. : h * 0.5;  // stop on or half a step after a multiple of the step
    b = a + n * h - extra;
    s.show("start", a); s.show("stop", b); s.show("step", h);
    s.nontrivial(n > 2);
    auto v = h == 1 && s.boolean() ? arange<double>(a, b) : arange<double>(a, b, h);
    CHECK((int) v.size() == n, "number of values " << v.size() << ", expected " << n);
    for (int i = 0; i < n; ++i) CHECK(v[i] == a + i * h, "value " << i << ": " << v[i] << ", expected " << a + i * h);
    return;
  }
  h = s.positive(-3, 2);
  a = s.scaled(-3, 3);
  b = a + h * (kind == 1 ? (double) s.integer(1, 400) : s.uniform(0.1, 400));
  s.show("start", a); s.show("stop", b); s.show("step", h);
  if (!(a < b)) return;
  s.nontrivial();
  auto v = arange<double>(a, b, h);
  CHECK(!v.empty(), "no value");
  LD m = std::max(std::fabs(a), std::fabs(b)), slack = 8 * pbt::EPS * m;
  for (size_t i = 0; i < v.size(); ++i) {
    pbt::near(v[i], (LD) a + (LD) i * h, slack + 8 * pbt::EPS * i * h, "value " + std::to_string(i));
    CHECK(v[i] <= b + slack + 8 * pbt::EPS * i * h, "value " << v[i] << " above stop");
  }
  // nothing is missing: one more step reaches stop (up to the rounding of the data)
  CHECK((LD) v.back() + h >= b - (slack + 16 * pbt::EPS * v.size() * h), "the values stop at " << v.back() << ", more than a step before stop");
}

static std::vector<double> grid(pbt::Src &s) { auto x = gen::grid(s, 2, 60, 1500); s.show("x", x); return x; }
static double threshold(pbt::Src &s, const std::vector<double> &x) {
  switch (s.draw(4)) {
    case 0: return x[s.draw(x.size())];
    case 1: return s.uniform(x.front() - 1, x.back() + 1);
    default: return s.uniform(x.front(), x.back());
  }
}
static double H(double x, double t) { return x < t ? 0 : x > t ? 1 : 0.5; }
TARGET(step_functions, 25000) {
  auto x = grid(s);
  double t = threshold(s, x), u = threshold(s, x);
  if (u < t) std::swap(t, u);
  s.show("t", t); s.show("u", u);
  double h = s.scaled(-3, 3, 0);
  s.show("height", h);
  s.nontrivial(x.size() > 2 && t > x.front() && t < x.back());
  auto e = Heaviside<double>(x, t), d = Door<double>(x, t, u, h), d1 = Door<double>(x, t, u);
  CHECK(e.size() == x.size() && d.size() == x.size() && d1.size() == x.size(), "sizes");
  for (size_t i = 0; i < x.size(); ++i) {
    CHECK(e[i] == H(x[i], t), "Heaviside at " << x[i] << " is " << e[i]);
    double w = H(x[i], t) - H(x[i], u);
    CHECK(d1[i] == w, "Door at " << x[i] << " is " << d1[i] << ", expected " << w);
    CHECK(d[i] == w * h, "Door of height " << h << " at " << x[i] << " is " << d[i] << ", expected " << w * h);
  }
}
TARGET(dirac, 20000) {  // on a uniform grid: one impulse, at the node nearest to the abscissa
  int n = s.size(2, 200, 3000);
  double h = s.chance(50) ? std::ldexp(1., (int) s.integer(-4, 4)) : s.positive(-3, 3), a = (double) s.integer(-50, 50) * h;
  std::vector<double> x(n);
  for (int i = 0; i < n; ++i) x[i] = a + i * h;
  int k = (int) s.draw(n);
  double f = s.chance(30) ? 0. : s.uniform(-0.49, 0.49);
  double t = x[k] + f * h, g = s.chance(40) ? 1. : s.scaled(-3, 3, 0);
  s.show("x0", a); s.show("dx", h); s.show("n", n); s.show("impulse", t); s.show("height", g);
  s.nontrivial(n > 2);
  auto v = g == 1 ? Dirac<double>(x, t) : Dirac<double>(x, t, g);
  CHECK(v.size() == x.size(), "size");
  for (int i = 0; i < n; ++i) CHECK(v[i] == (i == k ? g : 0.), "value " << v[i] << " at " << x[i] << ", impulse at " << t);
}
TARGET(ramp, 25000) {
  auto x = grid(s);
  double t = std::min(x.back(), std::max(x.front(), threshold(s, x))), u = std::min(x.back(), std::max(x.front(), threshold(s, x)));
  if (u < t) std::swap(t, u);
  if (s.chance(8)) u = t;
  if (u > t && u - t < 1e-6 * (x.back() - x.front())) u = t;
  double l = s.scaled(-2, 2), r = s.scaled(-2, 2);
  s.show("x_min", t); s.show("x_max", u); s.show("left", l); s.show("right", r);
  s.nontrivial(x.size() > 2 && u > t && l != r);
  auto v = Ramp<double>(x, t, u, l, r);
  CHECK(v.size() == x.size(), "size");
  for (size_t i = 0; i < x.size(); ++i) {
    if (x[i] <= t) CHECK(v[i] == l, "left of the ramp: " << v[i] << " at " << x[i]);
    else if (x[i] > u) CHECK(v[i] == r, "right of the ramp: " << v[i] << " at " << x[i]);
    else {
      LD slope = ((LD) r - l) / ((LD) u - t), want = l + slope * ((LD) x[i] - t);
      LD tol = 16 * pbt::EPS * (std::fabs(slope) * (std::fabs(t) + std::fabs(u)) + std::fabs(l) + std::fabs(r));
      pbt::near(v[i], want, tol, "on the ramp at " + pbt::str(x[i]));
    }
  }
}
TARGET(sinc, 25000) {
  int n = s.size(2, 60, 2000);
  std::vector<double> x(n);
  for (auto &v: x) v = s.scaled(-9, 3, 15);
  s.show("x", x);
  s.nontrivial(n > 2);
  auto v = Sinc<double>(x);
  CHECK(v.size() == x.size(), "size");
  for (int i = 0; i < n; ++i) {
    LD w = x[i] == 0 ? 1 : std::sin((LD) x[i]) / x[i];
    pbt::near(v[i], w, 4 * pbt::EPS * std::max<LD>(std::fabs(w), 1 / std::max(1., std::fabs(x[i]))), "Sinc at " + pbt::str(x[i]));
  }
  double a = -(double) s.integer(0, 9), b = (double) s.integer(0, 9);
  auto q = Sinc<double>(a, b, (unsigned) n);
  auto p = linspace<double>(a, b, (unsigned) n);
  CHECK(q.size() == p.size(), "size of the sampled Sinc");
  for (int i = 0; i < n; ++i) { LD w = p[i] == 0 ? 1 : std::sin((LD) p[i]) / p[i]; pbt::near(q[i], w, 1e-14L, "sampled Sinc at " + pbt::str(p[i])); }
}
