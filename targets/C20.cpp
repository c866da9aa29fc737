// C20: Chebyshev series approximations in one, two and three variables.
#include "pbt.h"
#include "series.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
using namespace ser;
PBT_PROPERTY("C20",
             "functions that are random sums of Chebyshev polynomials of the unit coordinates, of degree below, at and above the order of the series in each direction, on closed and half-open domains of any position and "
             "size in 1, 2 and 3 variables; the series must equal the interpolant at the Chebyshev nodes (folding of the degrees above the order, long double), so it reproduces the function when the degree does not "
             "exceed the order; derivatives, conversion to power series, coefficients computed again, copies; non-trivial: a function that is not constant and an order of at least 1 in one direction")
typedef ser::LD LD;

struct F : Function1d<double>, Function2d<double>, Function3d<double> {
  Tensor c;
  Axis X, Y, Z;
  double Evaluate(const double &x) const override { return eval(x, 0, 0, 1); }
  double Evaluate(const double &x, const double &y) const override { return eval(x, y, 0, 2); }
  double Evaluate(const double &x, const double &y, const double &z) const override { return eval(x, y, z, 3); }
  double eval(double x, double y, double z, int dim) const {
    auto a = cheb(c.nx, X.unit(x)), b = cheb(c.ny, dim > 1 ? Y.unit(y) : 0.L), d = cheb(c.nz, dim > 2 ? Z.unit(z) : 0.L);
    return (double) dot(c, a, b, d);
  }
};
static int degree(pbt::Src &s, int order) {  // number of coefficients of the function in a direction
  switch (s.draw(4)) {
    case 0: return (int) s.integer(1, order + 1);
    case 1: return order + 1;
    case 2: return order + 2;
    default: return (int) s.integer(1, 2 * order + 4);
  }
}
static LD unit_or0(const Axis &a, double x, bool used) { return used ? a.unit(x) : 0.L; }

struct Case {
  int dim;
  int ox, oy, oz;
  F f;
  Tensor a;  // coefficients of the interpolant
  LD tolf, tol0;
};
static Case make(pbt::Src &s, int dim, bool ox, bool oy, bool oz, int maxo) {
  Case c;
  c.dim = dim;
  c.ox = s.size(0, maxo);
  c.oy = dim > 1 ? s.size(0, maxo) : 0;
  c.oz = dim > 2 ? s.size(0, maxo) : 0;
  if (s.chance(2)) {  // a large order in one direction
    int big = (int) s.integer(maxo, dim == 1 ? 100 : dim == 2 ? 40 : 18), d = (int) s.draw(dim);
    c.ox = std::min(c.ox, 2); c.oy = std::min(c.oy, 2); c.oz = std::min(c.oz, 2);
    (d == 0 ? c.ox : d == 1 ? c.oy : c.oz) = big;
    s.label("large order");
  }
  c.f.X = axis(s, ox, "x");
  if (dim > 1) c.f.Y = axis(s, oy, "y");
  if (dim > 2) c.f.Z = axis(s, oz, "z");
  c.f.c = random(s, degree(s, c.ox), dim > 1 ? degree(s, c.oy) : 1, dim > 2 ? degree(s, c.oz) : 1);
  s.show("order x", c.ox);
  if (dim > 1) s.show("order y", c.oy);
  if (dim > 2) s.show("order z", c.oz);
  s.desc << "function of degree " << c.f.c.nx - 1;
  if (dim > 1) s.desc << "," << c.f.c.ny - 1;
  if (dim > 2) s.desc << "," << c.f.c.nz - 1;
  s.desc << " with coefficients";
  for (size_t i = 0; i < c.f.c.v.size() && i < 12; ++i) s.desc << " " << (double) c.f.c.v[i];
  s.desc << "; ";
  bool varied = false;
  for (size_t i = 1; i < c.f.c.v.size(); ++i) varied |= c.f.c.v[i] != 0;
  s.nontrivial(varied && c.ox + c.oy + c.oz > 0);
  c.a = interpolant(c.f.c, c.ox + 1, c.oy + 1, c.oz + 1);
  LD D = 0;
  D += (LD) (c.f.c.nx + c.ox) * (c.f.c.nx + c.ox) * c.f.X.kappa();
  if (dim > 1) D += (LD) (c.f.c.ny + c.oy) * (c.f.c.ny + c.oy) * c.f.Y.kappa();
  if (dim > 2) D += (LD) (c.f.c.nz + c.oz) * (c.f.c.nz + c.oz) * c.f.Z.kappa();
  c.tolf = 40 * pbt::EPS * (1 + D) * (1 + c.ox + c.oy + c.oz);
  c.tol0 = c.tolf * c.f.c.mag() + 1e-300L;
  return c;
}

template<int DIM> struct Call;
template<> struct Call<1> {
  template<class S> static void compute(S &q) { q.Compute_ai(); }
  template<class S> static double f(const S &q, double x, double, double) { return q.Evaluate(x); }
  template<class S> static double dx(const S &q, double x, double, double) { return q.Evaluate_derivative_x(x); }
  template<class S> static double dy(const S &q, double, double, double) { return 0; }
  template<class S> static double dz(const S &q, double, double, double) { return 0; }
  template<class S> static Tensor power(S &q, int, int, int) { auto b = q.Compute_bi(); Tensor t(b.rows(), 1, 1); for (int i = 0; i < b.rows(); ++i) t.at(i, 0, 0) = b(i); return t; }
};
template<> struct Call<2> {
  template<class S> static void compute(S &q) { q.Compute_aij(); }
  template<class S> static double f(const S &q, double x, double y, double) { return q.Evaluate(x, y); }
  template<class S> static double dx(const S &q, double x, double y, double) { return q.Evaluate_derivative_x(x, y); }
  template<class S> static double dy(const S &q, double x, double y, double) { return q.Evaluate_derivative_y(x, y); }
  template<class S> static double dz(const S &q, double, double, double) { return 0; }
  template<class S> static Tensor power(S &q, int, int, int) {
    auto b = q.Compute_bij();
    Tensor t(b.rows(), b.cols(), 1);
    for (int i = 0; i < b.rows(); ++i) for (int j = 0; j < b.cols(); ++j) t.at(i, j, 0) = b(i, j);
    return t;
  }
};
template<> struct Call<3> {
  template<class S> static void compute(S &q) { q.Compute_aijk(); }
  template<class S> static double f(const S &q, double x, double y, double z) { return q.Evaluate(x, y, z); }
  template<class S> static double dx(const S &q, double x, double y, double z) { return q.Evaluate_derivative_x(x, y, z); }
  template<class S> static double dy(const S &q, double x, double y, double z) { return q.Evaluate_derivative_y(x, y, z); }
  template<class S> static double dz(const S &q, double x, double y, double z) { return q.Evaluate_derivative_z(x, y, z); }
  template<class S> static Tensor power(S &q, int, int, int) {
    auto b = q.Compute_bijk();
    Tensor t(b.at(0).rows(), b.at(0).cols(), (int) b.size());
    for (int i = 0; i < t.nx; ++i) for (int j = 0; j < t.ny; ++j) for (int k = 0; k < t.nz; ++k) t.at(i, j, k) = b.at(k)(i, j);
    return t;
  }
};
static Case another(pbt::Src &s, const Case &c) {
  Case o = c;
  if (s.chance(70)) { o.f.X = larger(s, c.f.X); o.f.Y = larger(s, c.f.Y); o.f.Z = larger(s, c.f.Z); }
  if (s.boolean()) for (auto &v: o.f.c.v) v = 1 - v;
  return o;
}
template<int DIM, class S>
static void evaluate(pbt::Src &s, const Case &c, const S &q, const std::string &when, double *last = nullptr, const S *o = nullptr) {
  double x = last && s.chance(30) ? last[0] : point(s, c.f.X), y = DIM > 1 ? last && s.chance(30) ? last[1] : point(s, c.f.Y) : 0, z = DIM > 2 ? last && s.chance(30) ? last[2] : point(s, c.f.Z) : 0;
  if (last) { last[0] = x; last[1] = y; last[2] = z; }
  if (o && s.boolean()) { Call<DIM>::f(*o, x, y, z); Call<DIM>::dx(*o, x, y, z); Call<DIM>::dy(*o, x, y, z); Call<DIM>::dz(*o, x, y, z); }
  s.show("x", x);
  if (DIM > 1) s.show("y", y);
  if (DIM > 2) s.show("z", z);
  LD u = c.f.X.unit(x), v = unit_or0(c.f.Y, y, DIM > 1), w = unit_or0(c.f.Z, z, DIM > 2);
  const Tensor &a = c.a;
  auto Tx = cheb(a.nx, u), Ty = cheb(a.ny, v), Tz = cheb(a.nz, w);
  pbt::near(Call<DIM>::f(q, x, y, z), dot(a, Tx, Ty, Tz), c.tol0, "value of the series" + when);
  LD kx = 1 + c.ox * c.ox, ky = 1 + c.oy * c.oy, kz = 1 + c.oz * c.oz;
  pbt::near(Call<DIM>::dx(q, x, y, z), dot(a, dcheb(a.nx, u), Ty, Tz) * c.f.X.d(x), c.tol0 * kx * std::fabs(c.f.X.d(x)), "x-derivative of the series" + when);
  if (DIM > 1) pbt::near(Call<DIM>::dy(q, x, y, z), dot(a, Tx, dcheb(a.ny, v), Tz) * c.f.Y.d(y), c.tol0 * ky * std::fabs(c.f.Y.d(y)), "y-derivative of the series" + when);
  if (DIM > 2) pbt::near(Call<DIM>::dz(q, x, y, z), dot(a, Tx, Ty, dcheb(a.nz, w)) * c.f.Z.d(z), c.tol0 * kz * std::fabs(c.f.Z.d(z)), "z-derivative of the series" + when);
}
template<int DIM, class S>
static void check(pbt::Src &s, Case &c, S &q, S &o) {
  // another series of the same orders, on a larger domain or for another function, computed before or after and asked the same points
  bool before = s.boolean();
  if (before) Call<DIM>::compute(o);
  Call<DIM>::compute(q);
  if (!before) Call<DIM>::compute(o);
  double p0[3] = {point(s, c.f.X), DIM > 1 ? point(s, c.f.Y) : 0, DIM > 2 ? point(s, c.f.Z) : 0};
  evaluate<DIM>(s, c, q, "", p0, &o);
  evaluate<DIM>(s, c, q, "", p0, &o);
  S copy(q);
  if (s.chance(40)) {  // computed again, the function being possibly another one
    s.label("computed again");
    if (s.boolean()) { for (auto &v: c.f.c.v) v = -2 * v + 1; c.tol0 = c.tolf * c.f.c.mag() + 1e-300L; c.a = interpolant(c.f.c, c.ox + 1, c.oy + 1, c.oz + 1); s.note("other function"); }
    Call<DIM>::compute(q);
    evaluate<DIM>(s, c, q, " computed again");
    Call<DIM>::compute(copy);
    evaluate<DIM>(s, c, copy, " computed again in a copy");
  }
  if (c.ox <= 18 && c.oy <= 18 && c.oz <= 18) {
    Tensor b = Call<DIM>::power(q, c.ox, c.oy, c.oz);
    CHECK(b.nx == c.ox + 1 && b.ny == c.oy + 1 && b.nz == c.oz + 1, "dimensions of the power series");
    for (int r = 0; r < 2; ++r) {
      double u = s.real(-1, 1), v = DIM > 1 ? s.real(-1, 1) : 0, w = DIM > 2 ? s.real(-1, 1) : 0;
      s.show("unit x", u);
      LD want = dot(c.a, cheb(b.nx, u), cheb(b.ny, v), cheb(b.nz, w));
      LD amp = std::pow(2.5L, c.ox + c.oy + c.oz);  // growth of the coefficients of the conversion
      pbt::near(dot(b, pw(b.nx, u), pw(b.ny, v), pw(b.nz, w)), want, c.tol0 * amp, "power series of the Chebyshev series");
    }
    if (c.ox + c.oy + c.oz <= 8) {  // small orders: coefficient by coefficient, from the expansions of T_n
      auto coef = [](int n) {  // coefficients of T_n in powers of x
        std::vector<std::vector<LD>> t(n + 2, std::vector<LD>(n + 2, 0.L));
        t[0][0] = 1; t[1][1] = 1;
        for (int k = 2; k <= n; ++k) for (int i = 0; i <= k; ++i) t[k][i] = (i ? 2 * t[k - 1][i - 1] : 0) - t[k - 2][i];
        return t;
      };
      auto X = coef(c.ox), Y = coef(c.oy), Z = coef(c.oz);
      for (int i = 0; i <= c.ox; ++i) for (int j = 0; j <= c.oy; ++j) for (int k = 0; k <= c.oz; ++k) {
        LD want = 0;
        for (int r = i; r <= c.ox; ++r) for (int p = j; p <= c.oy; ++p) for (int t = k; t <= c.oz; ++t) want += c.a.at(r, p, t) * X[r][i] * Y[p][j] * Z[t][k];
        pbt::near(b.at(i, j, k), want, c.tol0 * 1e4L, "coefficient of the power series");
      }
    }
  }
}
TARGET(one_closed, 12000) { Case c = make(s, 1, false, false, false, 30); Case c2 = another(s, c); ChebyshevSeries1dClosed<double> q(&c.f, c.f.X.a, c.f.X.b, c.ox), o(&c2.f, c2.f.X.a, c2.f.X.b, c2.ox); check<1>(s, c, q, o); }
TARGET(one_opened, 12000) { Case c = make(s, 1, true, false, false, 30); Case c2 = another(s, c); ChebyshevSeries1dOpened<double> q(&c.f, c.f.X.a, c.ox), o(&c2.f, c2.f.X.a, c2.ox); check<1>(s, c, q, o); }
TARGET(two_closed, 3000) { Case c = make(s, 2, false, false, false, 9); Case c2 = another(s, c); ChebyshevSeries2dClosed<double> q(&c.f, c.f.X.a, c.f.X.b, c.f.Y.a, c.f.Y.b, c.ox, c.oy), o(&c2.f, c2.f.X.a, c2.f.X.b, c2.f.Y.a, c2.f.Y.b, c2.ox, c2.oy); check<2>(s, c, q, o); }
TARGET(two_opened, 3000) { Case c = make(s, 2, true, true, false, 9); Case c2 = another(s, c); ChebyshevSeries2dOpened<double> q(&c.f, c.f.X.a, c.f.Y.a, c.ox, c.oy), o(&c2.f, c2.f.X.a, c2.f.Y.a, c2.ox, c2.oy); check<2>(s, c, q, o); }
TARGET(two_mixed, 3000) { Case c = make(s, 2, false, true, false, 9); Case c2 = another(s, c); ChebyshevSeries2dMixed<double> q(&c.f, c.f.X.a, c.f.X.b, c.f.Y.a, c.ox, c.oy), o(&c2.f, c2.f.X.a, c2.f.X.b, c2.f.Y.a, c2.ox, c2.oy); check<2>(s, c, q, o); }
TARGET(three_closed, 700) { Case c = make(s, 3, false, false, false, 4); Case c2 = another(s, c); ChebyshevSeries3dClosed<double> q(&c.f, c.f.X.a, c.f.X.b, c.f.Y.a, c.f.Y.b, c.f.Z.a, c.f.Z.b, c.ox, c.oy, c.oz), o(&c2.f, c2.f.X.a, c2.f.X.b, c2.f.Y.a, c2.f.Y.b, c2.f.Z.a, c2.f.Z.b, c2.ox, c2.oy, c2.oz); check<3>(s, c, q, o); }
TARGET(three_yz_opened, 700) { Case c = make(s, 3, false, true, true, 4); Case c2 = another(s, c); ChebyshevSeries3dYZOpenedXClosed<double> q(&c.f, c.f.X.a, c.f.X.b, c.f.Y.a, c.f.Z.a, c.ox, c.oy, c.oz), o(&c2.f, c2.f.X.a, c2.f.X.b, c2.f.Y.a, c2.f.Z.a, c2.ox, c2.oy, c2.oz); check<3>(s, c, q, o); }
TARGET(three_z_opened, 700) { Case c = make(s, 3, false, false, true, 4); Case c2 = another(s, c); ChebyshevSeries3dZOpenedXYClosed<double> q(&c.f, c.f.X.a, c.f.X.b, c.f.Y.a, c.f.Y.b, c.f.Z.a, c.ox, c.oy, c.oz), o(&c2.f, c2.f.X.a, c2.f.X.b, c2.f.Y.a, c2.f.Y.b, c2.f.Z.a, c2.ox, c2.oy, c2.oz); check<3>(s, c, q, o); }
