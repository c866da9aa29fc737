// C15: 1D quadrature (Integrate1d, Trapz) and NaiveConvolution.
// scale: 16
#include "pbt.h"
#include "gen.h"
#include "MathUtils/Integration1d.h"
#include "MathUtils/Convolution.h"
using namespace mathutils;
PBT_PROPERTY("C15",
             "sampled data (2..200 values, constant and irregular steps, ascending and descending), function integrands (polynomials, oscillating, exponential) with bounds in both orders, histories of bound changes, "
             "method changes, copies and repeated evaluations on one integrator, convolutions of kernels with wrapped circular buffers in both directions; the composite trapezoidal sum is recomputed in long double; "
             "non-trivial: at least 3 samples that are not all equal, or a history with a change after an evaluation")
typedef long double LD;

static LD trap(const std::vector<double> &x, const std::vector<double> &y, LD &mag) {
  LD a = 0;
  mag = 0;
  for (size_t i = 1; i < y.size(); ++i) { LD h = (LD) x[i] - x[i - 1]; a += h * ((LD) y[i] + y[i - 1]) / 2; mag += std::fabs(h) * (std::fabs((LD) y[i]) + std::fabs((LD) y[i - 1])) / 2; }
  return a;
}
static LD trap(LD dx, const std::vector<double> &y, LD &mag) {
  LD a = 0;
  mag = 0;
  for (size_t i = 1; i < y.size(); ++i) { a += dx * ((LD) y[i] + y[i - 1]) / 2; mag += std::fabs(dx) * (std::fabs((LD) y[i]) + std::fabs((LD) y[i - 1])) / 2; }
  return a;
}
static bool varied(const std::vector<double> &v) { for (double x: v) if (x != v[0]) return v.size() > 2; return false; }

TARGET(uniform, 60000) {
  int n = s.size(2, 200, 4000);
  auto y = gen::values(s, n);
  double dx = s.scaled(-4, 3, 3);
  s.show("y", y);
  s.show("dx", dx);
  s.nontrivial(varied(y));
  LD mag, want = trap((LD) dx, y, mag);
  double d = dx;
  pbt::near(Trapz(y, d), want, (n + 10) * pbt::EPS * mag + 1e-300L, "Trapz with a constant step");
  CHECK(d == dx, "Trapz modified the step");
  std::vector<double> rev(y.rbegin(), y.rend());
  pbt::near(Trapz(rev, d), want, (n + 10) * pbt::EPS * mag + 1e-300L, "Trapz of the reversed samples");
}
TARGET(irregular, 60000) {
  auto x = gen::grid(s, 2, 200, 3000);
  int n = (int) x.size();
  auto y = gen::values(s, n);
  s.show("x", x);
  s.show("y", y);
  s.nontrivial(varied(y));
  LD mag, want = trap(x, y, mag);
  LD tol = (n + 10) * pbt::EPS * mag + 1e-300L;
  pbt::near(Trapz(x, y), want, tol + 1e-300L, "Trapz with abscissae");
  std::vector<double> rx(x.rbegin(), x.rend()), rr(y.rbegin(), y.rend());
  pbt::near(Trapz(rx, rr), -want, tol, "Trapz with descending abscissae");
  // additivity at a node
  if (n > 3) {
    int k = 1 + (int) s.draw(n - 2);
    std::vector<double> x1(x.begin(), x.begin() + k + 1), y1(y.begin(), y.begin() + k + 1), x2(x.begin() + k, x.end()), y2(y.begin() + k, y.end());
    pbt::near((LD) Trapz(x1, y1) + Trapz(x2, y2), want, 2 * tol, "Trapz is not additive");
  }
  // exact for affine data
  double a = s.uniform(-3, 3), b = s.uniform(-3, 3);
  std::vector<double> l(n);
  LD lm = 0;
  for (int i = 0; i < n; ++i) { l[i] = a * x[i] + b; lm = std::max(lm, std::fabs((LD) l[i]) + std::fabs((LD) a * x[i]) + std::fabs((LD) b)); }
  LD ex = ((LD) x.back() - x.front()) * ((LD) a * ((LD) x.back() + x.front()) / 2 + b);
  pbt::near(Trapz(x, l), ex, (n + 20) * pbt::EPS * lm * ((LD) x.back() - x.front()) + 20 * pbt::EPS * std::fabs(ex), "Trapz of affine data");
}

// integrands: plain function pointers, evaluated at x + O(n eps) because of the accumulated abscissa
static double g0(double x) { return 1; }
static double g1(double x) { return x; }
static double g2(double x) { return 3 * x * x - x + 1; }
static double g3(double x) { return std::sin(x); }
static double g4(double x) { return std::exp(-x * x / 50); }
static double g5(double x) { return 1 / (1 + x * x); }
typedef double (*Fn)(double);
static const Fn FN[] = {g0, g1, g2, g3, g4, g5};
static LD ref_fn(Fn f, double a, double b, unsigned n, LD &tol) {
  LD h = ((LD) b - a) / (n - 1), sum = 0, mx = 0;
  for (unsigned i = 0; i < n; ++i) { double x = (double) (a + h * i); LD y = f(x); sum += (i == 0 || i == n - 1) ? y / 2 : y; mx = std::max(mx, std::fabs(y)); }
  // derivative of the integrands bounded by 6|x|+2 on the range
  LD xm = std::max(std::fabs((LD) a), std::fabs((LD) b)), d = 6 * xm + 2;
  tol = std::fabs((LD) b - a) * (d * (n + 4) * pbt::EPS * (xm + std::fabs((LD) b - a)) + (n + 10) * pbt::EPS * mx) + 1e-300L;
  return sum * h;
}

TARGET(integrator_history, 30000) {
  bool vec = s.boolean();
  unsigned n = (unsigned) s.size(2, 150, 3000);
  double unit = s.chance(60) ? 1. : s.positive(-13, vec ? 13 : 2);  // scale of the bounds
  double a = unit * s.uniform(-10, 10), b = unit * s.uniform(-10, 10);
  if (s.chance(10)) b = a;
  // another bound: anywhere, next to the previous one, equal to it, or the other bound
  auto bound = [&](double old, double other) {
    switch (s.draw(8)) {
      case 0: return old * (1 + s.sign() * s.positive(-15, -1));
      case 1: return old + s.sign() * unit * s.positive(-15, 0);
      case 2: return s.chance(50) ? old : other;
      case 3: return other + s.sign() * unit * s.positive(-15, 0);
      case 4: return s.chance(50) ? 0. : -old;
      default: return unit * s.uniform(-10, 10);
    }
  };
  std::vector<double> y;
  Fn f = FN[s.draw(6)];
  if (vec) y = gen::values(s, (int) n);
  s.show("n", n);
  s.show("xmin", a);
  s.show("xmax", b);
  if (vec) s.show("y", y);
  auto I = vec ? Integrate1d<double>(y, a, b, n) : Integrate1d<double>(f, a, b, n);
  CHECK(I.GetIntegrationMethod() == TRAPEZOIDAL, "default method");
  bool nc = false, evaluated = false, changed_after = false;
  int ops = s.size(1, 14);
  for (int k = 0; k < ops; ++k) {
    switch (s.draw(6)) {
      case 0: a = bound(a, b); s.desc << "SetXmin(" << a << ") "; I.SetXmin(a); changed_after |= evaluated; break;
      case 1: b = bound(b, a); s.desc << "SetXmax(" << b << ") "; I.SetXmax(b); changed_after |= evaluated; break;
      case 2: {
        if (!s.chance(40)) break;
        nc = s.boolean();
        s.desc << "method(" << nc << ") ";
        I.SetIntegrationMethod(nc ? NEWTON_COTES : TRAPEZOIDAL);
        changed_after |= evaluated;
        break;
      }
      case 3: { auto J = I; J.SetXmin(0); J.SetXmax(1); J.SetIntegrationMethod(TRAPEZOIDAL); J.Get(); I = Integrate1d<double>(I); break; }
      default: {
        s.desc << "Get ";
        if (nc) {
          bool threw = false;
          try { I.Get(); } catch (const std::runtime_error &) { threw = true; }
          CHECK(threw, "the method that is not implemented returns a value");
          s.label("method not implemented");
          break;
        }
        LD tol, want;
        if (vec) { LD mag; want = trap(((LD) b - a) / (n - 1), y, mag); tol = (n + 10) * pbt::EPS * mag + 1e-300L; }
        else want = ref_fn(f, a, b, n, tol);
        double g = I.Get();
        pbt::near(g, want, tol, "integral");
        CHECK(I.Get() == g, "two evaluations in a row differ");
        evaluated = true;
      }
    }
    CHECK(I.GetXmin() == a && I.GetXmax() == b, "bounds");
    CHECK(I.GetIntegrationMethod() == (nc ? NEWTON_COTES : TRAPEZOIDAL), "method");
  }
  s.nontrivial(changed_after || (vec ? varied(y) : n > 2));
}

TARGET(convergence, 8000) {  // the trapezoidal value approaches the integral at second order
  int k = (int) s.draw(6);
  double a = s.uniform(-5, 5), b = s.uniform(-5, 5);
  unsigned n = (unsigned) s.integer(20, 400);
  LD exact = 0, A = a, B = b;
  switch (k) {
    case 0: exact = B - A; break;
    case 1: exact = (B * B - A * A) / 2; break;
    case 2: exact = (B * B * B - B * B / 2 + B) - (A * A * A - A * A / 2 + A); break;
    case 3: exact = std::cos(A) - std::cos(B); break;
    case 4: exact = std::sqrt(50 * std::acos(-1.0L)) / 2 * (std::erf(B / std::sqrt(50.L)) - std::erf(A / std::sqrt(50.L))); break;
    default: exact = std::atan(B) - std::atan(A);
  }
  s.show("integrand", k);
  s.show("a", a);
  s.show("b", b);
  s.show("n", n);
  s.nontrivial(k > 0);
  LD h = std::fabs(B - A) / (n - 1);
  pbt::near(Integrate1d<double>(FN[k], a, b, n).Get(), exact, std::fabs(B - A) * h * h / 12 * 6 * 1.01L + 1e-11L, "trapezoidal error bound |b-a| h^2 max|f''| / 12");
}

TARGET(convolution, 40000) {
  int N = s.size(2, 60, 1500), extra = s.chance(40) ? s.size(0, 20) : 0;
  auto kernel = gen::values(s, N);
  boost::circular_buffer<double> buf((size_t) (N + extra));
  std::vector<double> model;  // in buffer order
  int pushes = N + extra + s.size(0, 80);
  bool front = s.boolean();
  auto sig = gen::values(s, pushes);
  for (double v: sig) {
    if (front) { buf.push_front(v); model.insert(model.begin(), v); if ((int) model.size() > N + extra) model.pop_back(); }
    else { buf.push_back(v); model.push_back(v); if ((int) model.size() > N + extra) model.erase(model.begin()); }
  }
  double dt = s.positive(-3, 1);
  s.show("kernel", kernel);
  s.show("buffer", model);
  s.show("dt", dt);
  for (int rev = 0; rev < 2; ++rev) {
    std::vector<double> p(N);
    LD mag = 0, sum = 0;
    for (int i = 0; i < N; ++i) { LD v = (LD) kernel[i] * model[rev ? i : N - 1 - i]; LD w = (i == 0 || i == N - 1) ? 0.5L : 1; sum += w * v; mag += std::fabs(v); }
    auto bc = buf;
    double got = rev && s.boolean() ? NaiveConvolution(kernel, buf, dt) : NaiveConvolution(kernel, buf, dt, rev != 0);
    pbt::near(got, sum * dt, (N + 10) * pbt::EPS * mag * dt + 1e-300L, rev ? "convolution, buffer in order" : "convolution, buffer reversed");
    CHECK(bc == buf, "the convolution modified the signal");
  }
  s.nontrivial(varied(kernel) && varied(model));
  if (pushes > N + extra) s.label("wrapped buffer");
  if (extra) s.label("signal longer than the kernel");
}
