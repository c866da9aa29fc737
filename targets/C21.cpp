// C21: power series in one, two and three variables.
// scale: 16
#include "pbt.h"
#include "series.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using namespace ser;
PBT_PROPERTY("C21",
             "random coefficients, orders 0..12 per direction (0..5 in three variables), closed and half-open domains of any position and size, points inside of them and on their bounds; values, every derivative, the "
             "combined evaluation, the limit at infinity and the evaluations with a predefined third coordinate against the explicit sum of monomials in long double; getters; non-trivial: order of at least 1 in one "
             "direction and coefficients that are not all zero")
typedef ser::LD LD;

struct Case { int dim, ox, oy, oz; Axis X, Y, Z; Tensor b; };
static Case make(pbt::Src &s, int dim, bool ox, bool oy, bool oz, int maxo) {
  Case c;
  c.dim = dim;
  c.ox = s.size(0, maxo);
  c.oy = dim > 1 ? s.size(0, maxo) : 0;
  c.oz = dim > 2 ? s.size(0, maxo) : 0;
  if (s.chance(2)) {  // a large order in one direction
    int big = (int) s.integer(maxo, 150), d = (int) s.draw(dim);
    c.ox = std::min(c.ox, 2); c.oy = std::min(c.oy, 2); c.oz = std::min(c.oz, 2);
    (d == 0 ? c.ox : d == 1 ? c.oy : c.oz) = big;
    s.label("large order");
  }
  c.X = axis(s, ox, "x");
  if (dim > 1) c.Y = axis(s, oy, "y");
  if (dim > 2) c.Z = axis(s, oz, "z");
  c.b = random(s, c.ox + 1, c.oy + 1, c.oz + 1);
  for (auto &v: c.b.v) v = (double) v;
  s.desc << "orders " << c.ox << "," << c.oy << "," << c.oz << " coefficients";
  for (size_t i = 0; i < c.b.v.size() && i < 12; ++i) s.desc << " " << (double) c.b.v[i];
  s.desc << "; ";
  s.nontrivial(c.ox + c.oy + c.oz > 0 && c.b.mag() > 0);
  return c;
}
static const LD E = 30 * std::numeric_limits<double>::epsilon();
// the oracle: sum, its condition and the effect of rounding the unit coordinates
struct Want {
  LD f, dx, dy, dz, tf, tx, ty, tz;
};
static Want want(const Case &c, LD u, LD v, LD w, LD gx, LD gy, LD gz) {
  Want r;
  const Tensor &b = c.b;
  auto X = pw(b.nx, u), Y = pw(b.ny, v), Z = pw(b.nz, w), DX = dpw(b.nx, u), DY = dpw(b.ny, v), DZ = dpw(b.nz, w);
  r.f = dot(b, X, Y, Z);
  r.dx = dot(b, DX, Y, Z) * gx;
  r.dy = dot(b, X, DY, Z) * gy;
  r.dz = dot(b, X, Y, DZ) * gz;
  // |u| <= 1 up to rounding: bound every monomial by 1 and its derivative by its degree
  LD m = b.mag(), k = (c.X.kappa() * b.nx + (c.dim > 1 ? c.Y.kappa() * b.ny : 0) + (c.dim > 2 ? c.Z.kappa() * b.nz : 0));
  r.tf = E * k * m + 1e-300L;
  r.tx = r.tf * b.nx * b.nx * std::fabs(gx);
  r.ty = r.tf * b.ny * b.ny * std::fabs(gy);
  r.tz = r.tf * b.nz * b.nz * std::fabs(gz);
  return r;
}
static VectorN<double> vec(const Case &c) { VectorN<double> b = VectorN<double>::Zero(c.b.nx); for (int i = 0; i < c.b.nx; ++i) b(i) = (double) c.b.at(i, 0, 0); return b; }
static MatrixMN<double> mat(const Case &c, int k) { MatrixMN<double> b = MatrixMN<double>::Zero(c.b.nx, c.b.ny); for (int i = 0; i < c.b.nx; ++i) for (int j = 0; j < c.b.ny; ++j) b(i, j) = (double) c.b.at(i, j, k); return b; }
static std::vector<MatrixMN<double>> ten(const Case &c) { std::vector<MatrixMN<double>> v; for (int k = 0; k < c.b.nz; ++k) v.push_back(mat(c, k)); return v; }

// Another series of the same kind and orders, on a larger domain or with other coefficients, asked the same points.
static Case another(pbt::Src &s, const Case &c) {
  Case o = c;
  if (s.chance(70)) { o.X = larger(s, c.X); o.Y = larger(s, c.Y); o.Z = larger(s, c.Z); }
  if (s.boolean()) for (auto &v: o.b.v) v = -v;
  return o;
}
static double again(pbt::Src &s, int r, double &last, const Axis &a) { return last = r && s.chance(30) ? last : point(s, a); }  // the coordinate of the point before, or another one

template<class S>
static void check1(pbt::Src &s, const Case &c, const S &q, const S &o) {
  for (int r = 0; r < 3; ++r) {
    double x = point(s, c.X);
    s.show("x", x);
    LD u = c.X.unit(x);
    if (s.boolean()) { o.Evaluate(x); o.Evaluate_derivative_x(x); }
    Want w = want(c, u, 0, 0, c.X.d(x), 0, 0);
    pbt::near(q.Evaluate(x), w.f, w.tf, "value");
    pbt::near(q.Evaluate_derivative_x(x), w.dx, w.tx, "x-derivative");
    pbt::near(q.Evaluate_unit((double) u), w.f, w.tf, "value in unit coordinates");
    pbt::near(q.Evaluate_derivative_x_unit(x, (double) u), w.dx, w.tx, "x-derivative in unit coordinates");
  }
}
template<class S>
static void check2(pbt::Src &s, const Case &c, const S &q, const S &o) {
  double lx = 0, ly = 0;
  for (int r = 0; r < 3; ++r) {
    double x = again(s, r, lx, c.X), y = again(s, r, ly, c.Y);
    s.show("x", x); s.show("y", y);
    LD u = c.X.unit(x), v = c.Y.unit(y);
    if (s.boolean()) { o.Evaluate(x, y); o.Evaluate_derivative_x(x, y); o.Evaluate_derivative_y(x, y); }
    Want w = want(c, u, v, 0, c.X.d(x), c.Y.d(y), 0);
    pbt::near(q.Evaluate(x, y), w.f, w.tf, "value");
    pbt::near(q.Evaluate_derivative_x(x, y), w.dx, w.tx, "x-derivative");
    pbt::near(q.Evaluate_derivative_y(x, y), w.dy, w.ty, "y-derivative");
    pbt::near(q.Evaluate_unit((double) u, (double) v), w.f, w.tf, "value in unit coordinates");
    pbt::near(q.Evaluate_derivative_x_unit(x, (double) u, (double) v), w.dx, w.tx, "x-derivative in unit coordinates");
    pbt::near(q.Evaluate_derivative_y_unit(y, (double) u, (double) v), w.dy, w.ty, "y-derivative in unit coordinates");
  }
}
template<class S>
static void check3(pbt::Src &s, const Case &c, S &q, S &o, const std::string &type) {
  double lx = 0, ly = 0, lz = 0;
  CHECK(q.order_x() == c.ox && q.order_y() == c.oy && q.order_z() == c.oz, "orders");
  CHECK(q.xmin() == c.X.a && q.ymin() == c.Y.a && q.zmin() == c.Z.a, "lower bounds");
  CHECK(q.type() == type, "type " << q.type());
  auto bijk = q.bijk();
  CHECK((int) bijk.size() == c.b.nz, "number of coefficient matrices");
  for (int k = 0; k < c.b.nz; ++k) for (int i = 0; i < c.b.nx; ++i) for (int j = 0; j < c.b.ny; ++j) CHECK(bijk[k](i, j) == (double) c.b.at(i, j, k), "coefficient " << i << "," << j << "," << k);
  for (int r = 0; r < 2; ++r) {
    double x = again(s, r, lx, c.X), y = again(s, r, ly, c.Y), z = again(s, r, lz, c.Z);
    s.show("x", x); s.show("y", y); s.show("z", z);
    LD u = c.X.unit(x), v = c.Y.unit(y);
    auto ask_other = [&] {
      double f, g, h;
      o.Evaluate(x, y, z); o.Evaluate_derivative_x(x, y, z); o.Evaluate_derivative_y(x, y, z); o.Evaluate_derivative_z(x, y, z);
      o.Evaluate_f_dfdx_dfdy(x, y, z, f, g, h);
      auto m = o.Compute_cij(z);
      o.Evaluate_f_dfdx_dfdy_z_predefined(x, y, m, f, g, h);
      o.Compute_cij_zinf(); o.Evaluate_zinf(x, y);
    };
    if (s.boolean()) ask_other();
    Want w = want(c, u, v, c.Z.unit(z), c.X.d(x), c.Y.d(y), c.Z.d(z));
    pbt::near(q.Evaluate(x, y, z), w.f, w.tf, "value");
    pbt::near(q.Evaluate_derivative_x(x, y, z), w.dx, w.tx, "x-derivative");
    pbt::near(q.Evaluate_derivative_y(x, y, z), w.dy, w.ty, "y-derivative");
    pbt::near(q.Evaluate_derivative_z(x, y, z), w.dz, w.tz, "z-derivative");
    double f = s.uniform(-9, 9), dx = s.uniform(-9, 9), dy = s.uniform(-9, 9);
    q.Evaluate_f_dfdx_dfdy(x, y, z, f, dx, dy);
    pbt::near(f, w.f, w.tf, "value of the combined evaluation");
    pbt::near(dx, w.dx, w.tx, "x-derivative of the combined evaluation");
    pbt::near(dy, w.dy, w.ty, "y-derivative of the combined evaluation");
    auto cij = q.Compute_cij(z);
    if (s.chance(30)) ask_other();
    CHECK(cij.rows() == c.b.nx && cij.cols() == c.b.ny, "dimensions of the predefined coefficients");
    pbt::near(q.Evaluate_z_predefined(x, y, cij), w.f, w.tf, "value with z predefined");
    pbt::near(q.Evaluate_derivative_x_z_predefined(x, y, cij), w.dx, w.tx, "x-derivative with z predefined");
    pbt::near(q.Evaluate_derivative_y_z_predefined(x, y, cij), w.dy, w.ty, "y-derivative with z predefined");
    f = dx = dy = 7;
    q.Evaluate_f_dfdx_dfdy_z_predefined(x, y, cij, f, dx, dy);
    pbt::near(f, w.f, w.tf, "value of the combined evaluation with z predefined");
    pbt::near(dx, w.dx, w.tx, "x-derivative of the combined evaluation with z predefined");
    pbt::near(dy, w.dy, w.ty, "y-derivative of the combined evaluation with z predefined");
    Want wi = want(c, u, v, 1, c.X.d(x), c.Y.d(y), 0);
    pbt::near(q.Evaluate_zinf(x, y), wi.f, wi.tf, "value at infinity");
    pbt::near(q.Evaluate_derivative_x_zinf(x, y), wi.dx, wi.tx, "x-derivative at infinity");
    pbt::near(q.Evaluate_derivative_y_zinf(x, y), wi.dy, wi.ty, "y-derivative at infinity");
    auto cinf = q.Compute_cij_zinf();
    pbt::near(q.Evaluate_z_predefined(x, y, cinf), wi.f, wi.tf, "value with z predefined at infinity");
  }
}
TARGET(one_closed, 20000) { Case c = make(s, 1, false, false, false, 12); Case c2 = another(s, c); PowerSeries1dClosed<double> q(vec(c), c.X.a, c.X.b), o(vec(c2), c2.X.a, c2.X.b); check1(s, c, q, o); }
TARGET(one_opened, 20000) { Case c = make(s, 1, true, false, false, 12); Case c2 = another(s, c); PowerSeries1dOpened<double> q(vec(c), c.X.a), o(vec(c2), c2.X.a); check1(s, c, q, o); }
TARGET(two_closed, 12000) { Case c = make(s, 2, false, false, false, 8); Case c2 = another(s, c); PowerSeries2dClosed<double> q(mat(c, 0), c.X.a, c.X.b, c.Y.a, c.Y.b), o(mat(c2, 0), c2.X.a, c2.X.b, c2.Y.a, c2.Y.b); check2(s, c, q, o); }
TARGET(two_opened, 12000) { Case c = make(s, 2, true, true, false, 8); Case c2 = another(s, c); PowerSeries2dOpened<double> q(mat(c, 0), c.X.a, c.Y.a), o(mat(c2, 0), c2.X.a, c2.Y.a); check2(s, c, q, o); }
TARGET(two_mixed, 12000) { Case c = make(s, 2, false, true, false, 8); Case c2 = another(s, c); PowerSeries2dMixed<double> q(mat(c, 0), c.X.a, c.X.b, c.Y.a), o(mat(c2, 0), c2.X.a, c2.X.b, c2.Y.a); check2(s, c, q, o); }
TARGET(three_closed, 5000) {
  Case c = make(s, 3, false, false, false, 5); Case c2 = another(s, c);
  PowerSeries3dClosed<double> q(ten(c), c.X.a, c.X.b, c.Y.a, c.Y.b, c.Z.a, c.Z.b), o(ten(c2), c2.X.a, c2.X.b, c2.Y.a, c2.Y.b, c2.Z.a, c2.Z.b);
  check3(s, c, q, o, "PowerSeries3dClosed");
  CHECK(q.xmax() == c.X.b && q.ymax() == c.Y.b && q.zmax() == c.Z.b, "upper bounds");
}
TARGET(three_yz_opened, 5000) {
  Case c = make(s, 3, false, true, true, 5); Case c2 = another(s, c);
  PowerSeries3dYZOpenedXClosed<double> q(ten(c), c.X.a, c.X.b, c.Y.a, c.Z.a), o(ten(c2), c2.X.a, c2.X.b, c2.Y.a, c2.Z.a);
  check3(s, c, q, o, "PowerSeries3dYZOpenedXClosed");
  CHECK(q.xmax() == c.X.b, "upper bound");
}
TARGET(three_z_opened, 5000) {
  Case c = make(s, 3, false, false, true, 5); Case c2 = another(s, c);
  PowerSeries3dZOpenedXYClosed<double> q(ten(c), c.X.a, c.X.b, c.Y.a, c.Y.b, c.Z.a), o(ten(c2), c2.X.a, c2.X.b, c2.Y.a, c2.Y.b, c2.Z.a);
  check3(s, c, q, o, "PowerSeries3dZOpenedXYClosed");
  CHECK(q.xmax() == c.X.b && q.ymax() == c.Y.b, "upper bounds");
}
