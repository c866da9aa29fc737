// C22: interpolating splines.
// scale: 20
#include "pbt.h"
#include "gen.h"
#include <Eigen/Dense>
#include "MathUtils/Spline.h"
using namespace mathutils;
PBT_PROPERTY("C22",
             "strictly increasing abscissae (2 to 40 points, uniform and irregular, any offset and scale), arbitrary ordinates, degrees 1, 2, 3 and 5; the spline passes through every point, reproduces polynomials up to its "
             "degree and is the Lagrange polynomial when there are no more points than its degree plus one, is linear in the data, does not depend on the scale and origin of the abscissae, has continuous values (and slopes) at and "
             "between the points, and is the broken line for degree 1; non-trivial: at least 4 points that are not aligned")
typedef long double LD;

// step ratio bounded by 4 : conditioning of the interpolation problem
static std::vector<double> abscissae(pbt::Src &s, int n) {
  std::vector<double> x(n);
  double scale = s.chance(40) ? s.positive(-3, 3) : 1., cur = s.chance(50) ? (double) s.integer(-20, 20) : s.uniform(-50, 50);
  if (s.chance(8)) cur = s.sign() * s.positive(2, 7);  // far from the origin
  bool uni = s.boolean();
  for (auto &v: x) { v = cur * scale; cur += uni ? 1. : s.uniform(0.5, 2); }
  s.show("x", x);
  return x;
}
static LD lagrange(const std::vector<double> &x, const std::vector<double> &y, LD t) {
  LD r = 0;
  for (size_t i = 0; i < x.size(); ++i) {
    LD p = y[i];
    for (size_t j = 0; j < x.size(); ++j) if (j != i) p *= (t - x[j]) / ((LD) x[i] - x[j]);
    r += p;
  }
  return r;
}
static double maxabs(const std::vector<double> &y) { double m = 1e-300; for (double v: y) m = std::max(m, std::fabs(v)); return m; }

template<int Deg>
static void check(pbt::Src &s, int nmax) {
  int n = s.size(2, nmax);
  if (n == nmax && s.chance(10)) n = (int) s.integer(nmax, 5 * nmax);
  auto x = abscissae(s, n);
  auto y = gen::values(s, n);
  s.show("y", y);
  s.show("degree", Deg);
  s.nontrivial(n >= 4);
  auto xc = x, yc = y;
  Spline<double, 1, Deg> sp(xc, yc);
  CHECK(xc == x && yc == y, "the data were modified");
  double M = maxabs(y);
  LD off = 1 + std::max(std::fabs(x.front()), std::fabs(x.back())) / (x.back() - x.front());  // rounding of the abscissae
  LD tol = 1e-10L * M * off * (Deg > 3 ? 100 : 1);
  for (int i = 0; i < n; ++i) pbt::near(sp(x[i]), y[i], tol, "value at the point " + std::to_string(i));
  // other constructor, copy
  Eigen::VectorXd ex = Eigen::Map<Eigen::VectorXd>(xc.data(), n), ey = Eigen::Map<Eigen::VectorXd>(yc.data(), n);
  Spline<double, 1, Deg> se(ex, ey), cp(sp);
  std::vector<double> q;
  for (int k = 0; k < 4; ++k) { int i = (int) s.draw(n - 1); q.push_back(s.chance(25) ? (s.boolean() ? x[i] + (x[i + 1] - x[i]) * s.positive(-12, -1) : x[i + 1] - (x[i + 1] - x[i]) * s.positive(-12, -1)) : s.uniform(x[i], x[i + 1])); }
  s.show("queries", q);
  for (double t: q) {
    double v = sp(t);
    CHECK(std::isfinite(v), "value " << v << " inside of the range");
    CHECK(se(t) == v && cp(t) == v, "constructors or copies disagree: " << v << " " << se(t) << " " << cp(t));
    if (n <= Deg + 1) pbt::near(v, lagrange(x, y, t), tol * 100, "polynomial through the points");
    if (Deg == 1) {
      int i = 0;
      while (i < n - 2 && x[i + 1] < t) ++i;
      LD w = ((LD) t - x[i]) / ((LD) x[i + 1] - x[i]);
      pbt::near(v, (1 - w) * y[i] + w * y[i + 1], tol, "broken line");
    }
  }
  // another spline on other abscissae, asked the same points in between
  {
    std::vector<double> xo(x), yo(y);
    double w = x.back() - x.front(), a = s.uniform(0, 1), b = s.uniform(0, 1);
    for (int i = 0; i < n; ++i) xo[i] = (x.front() - a * w) + (x[i] - x.front()) * (1 + a + b);
    bool ok = xo.back() >= x.back();
    for (int i = 1; i < n; ++i) ok &= xo[i] > xo[i - 1];
    if (ok) {
      Spline<double, 1, Deg> so(xo, yo);
      for (double t: q) {
        double v = sp(t), o = so(t);
        CHECK(sp(t) == v && cp(t) == v && so(t) == o, "the value at " << t << " depends on the other splines evaluated there");
        if (n <= Deg + 1) { pbt::near(v, lagrange(x, y, t), tol * 100, "polynomial through the points, after another spline"); pbt::near(o, lagrange(xo, yo, t), tol * 100, "polynomial through the points of the other spline"); }
      }
    }
  }
  // linear in the data
  {
    auto z = gen::values(s, n);
    double a = s.uniform(-2, 2), b = s.uniform(-2, 2);
    std::vector<double> m(n);
    for (int i = 0; i < n; ++i) m[i] = a * y[i] + b * z[i];
    Spline<double, 1, Deg> sz(xc, z), sm(xc, m);
    for (double t: q) pbt::near(sm(t), a * (LD) sp(t) + b * (LD) sz(t), 20 * tol / M * (2 * M + 2 * maxabs(z)), "linearity in the data");
  }
  // origin and scale of the abscissae
  {
    double a = std::ldexp(1., (int) s.integer(-3, 3)), b = (double) s.integer(-8, 8);
    std::vector<double> xs(n);
    for (int i = 0; i < n; ++i) xs[i] = a * x[i] + b;
    bool ok = true;
    for (int i = 1; i < n; ++i) ok &= xs[i] - xs[i - 1] > 0.9 * a * (x[i] - x[i - 1]);
    if (ok) {
      Spline<double, 1, Deg> ss(xs, yc);
      LD off2 = 1 + std::max(std::fabs(xs.front()), std::fabs(xs.back())) / (xs.back() - xs.front());
      for (double t: q) pbt::near(ss(std::min(xs.back(), std::max(xs.front(), a * t + b))), sp(t), 1e-9L * M * (off + off2) * n * (Deg > 3 ? 100 : 1), "change of origin and scale of the abscissae");
    }
  }
  // polynomials of degree up to min(Deg, n-1)
  {
    int d = std::min(Deg, n - 1);
    std::vector<double> c(d + 1), py(n);
    for (auto &v: c) v = s.uniform(-3, 3);
    LD x0 = x.front(), L = (LD) x.back() - x.front();
    auto P = [&](LD t) { LD u = (t - x0) / L, r = 0; for (int i = d; i >= 0; --i) r = r * u + c[i]; return r; };
    for (int i = 0; i < n; ++i) py[i] = (double) P(x[i]);
    Spline<double, 1, Deg> ps(xc, py);
    for (double t: q) pbt::near(ps(t), P(t), 1e-9L * 20 * off * (Deg > 3 ? 100 : 1), "reproduction of a polynomial of degree " + std::to_string(d));
  }
  // continuity: values, and slopes for degree >= 2
  {
    int i = (int) s.draw(n);
    double h = (x.back() - x.front()) * 1e-7;
    double lip = 0;
    for (int k = 1; k < n; ++k) lip = std::max(lip, std::fabs(y[k] - y[k - 1]));
    double t = s.boolean() ? x[i] : q[0];
    t = std::min(x.back() - 2 * h, std::max(x.front() + 2 * h, t));
    double l = sp(t - h), m = sp(t), r = sp(t + h);
    LD slope = 200.L * n * (M) * 1e-7L * Deg * Deg + 10 * tol;  // |S'| h
    pbt::near(l, m, slope, "continuity on the left");
    pbt::near(r, m, slope, "continuity on the right");
    if (Deg >= 2) {
      double g = (x.back() - x.front()) * 1e-4 / n;
      t = std::min(x.back() - 2 * g, std::max(x.front() + 2 * g, t));
      LD sl = ((LD) sp(t) - sp(t - g)) / g, sr = ((LD) sp(t + g) - sp(t)) / g;
      LD h2 = (x.back() - x.front()) / n;
      pbt::near(sl, sr, 2e-2L * M * Deg * Deg * Deg / h2 + 10 * tol / g, "continuity of the slope");
    }
  }
}
TARGET(cubic, 6000) { check<3>(s, 40); }
TARGET(linear, 4000) { check<1>(s, 40); }
TARGET(quadratic, 4000) { check<2>(s, 40); }
TARGET(quintic, 4000) { check<5>(s, 20); }
