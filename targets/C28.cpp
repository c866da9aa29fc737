// C28: evaluating a constant object changes nothing: answers do not depend on earlier or simultaneous queries.
// scale: 8
// build: -fno-sanitize=all -fsanitize=thread
// parts: 3
#include "pbt.h"
#include "gen.h"
#include "MathUtils/MathUtilsBoost.h"
#include <thread>
#include <atomic>
#ifndef PBT_PART
#define PBT_PART 1
#endif
#if PBT_PART == 1
PBT_PROPERTY("C28",
             "for each kind of evaluator (interpolators, tables, grids, splines, power and Chebyshev series, quadratures, matrix queries, special functions, conversions) two objects with generated data on the same or on different domains, and a list of generated queries; the answers "
             "of objects built anew for each query are compared, to the last bit, with those of one object asked all queries in several orders, in between queries to the other object, and from three threads at once under the thread "
             "sanitizer; non-trivial: at least three different queries")
#endif
using namespace mathutils;
typedef std::vector<double> V;
struct Ev {
  virtual ~Ev() = default;
  virtual V ask(const V &q) const = 0;
};
typedef std::shared_ptr<const Ev> P;
template<class F> struct Fn : Ev {
  F f;
  explicit Fn(F f) : f(std::move(f)) {}
  V ask(const V &q) const override { return f(q); }
};
template<class F> static P ev(F f) { return std::make_shared<Fn<F>>(std::move(f)); }
static bool same(const V &a, const V &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }

// make(k) builds object k (0 or 1), always the same one; query(s) makes a query
static void pure(pbt::Src &s, const std::function<P(int)> &make, const std::vector<V> &qs) {
  int n = (int) qs.size();
  std::vector<V> want[2];
  for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) want[k].push_back(make(k)->ask(qs[i]));
  std::set<V> d(qs.begin(), qs.end());
  s.nontrivial(d.size() >= 3);
  P o[2] = {make(0), make(1)};
  // one after the other, in any order, between both objects
  int steps = 3 * n;
  for (int t = 0; t < steps; ++t) {
    int k = (int) s.draw(2), i = (int) s.draw(n);
    V got = o[k]->ask(qs[i]);
    CHECK(same(got, want[k][i]), "after other queries the answer of object " << k << " to query " << i << " is " << pbt::str(got) << ", that of a new object is " << pbt::str(want[k][i]));
  }
  // at once
  std::atomic<int> bad(-1), ready(0);
  std::vector<std::thread> th;
  for (int t = 0; t < 3; ++t)
    th.emplace_back([&, t] {
      ++ready;
      while (ready < 3) {}
      for (int r = 0; r < 2; ++r)
        for (int j = 0; j < n; ++j) {
          int i = (j * (t + 1) + t) % n, k = (t + r) & 1;
          if (!same(o[k]->ask(qs[i]), want[k][i])) bad = i;
        }
    });
  for (auto &x: th) x.join();
  CHECK(bad < 0, "asked by several threads at once, query " << bad << " had another answer");
  for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) CHECK(same(o[k]->ask(qs[i]), want[k][i]), "after all queries the answer of object " << k << " to query " << i << " changed");
}
// Another grid of the same number of nodes, with all or none of its nodes elsewhere, that contains the given one.
static V other_grid(pbt::Src &s, const V &x) {
  V o = x;
  size_t n = x.size();
  if (n < 2 || s.chance(25)) return o;
  for (size_t i = 1; i + 1 < n; ++i) o[i] = x[i] + (x[i + 1] - x[i]) * s.uniform(0, 0.9);
  if (s.boolean()) o[0] -= (x[1] - x[0]) * s.uniform(0.1, 2);
  if (s.boolean()) o[n - 1] += (x[n - 1] - x[n - 2]) * s.uniform(0.1, 2);
  for (size_t i = 1; i < n; ++i) if (!(o[i] > o[i - 1])) return x;
  s.show("nodes of the other object", o);
  return o;
}
static std::vector<V> points(pbt::Src &s, const std::vector<V> &grids, bool out) {
  int n = (int) s.integer(3, 10);
  std::vector<V> qs;
  for (int i = 0; i < n; ++i) {
    V q;
    for (auto &g: grids) q.push_back(out && s.chance(25) ? gen::outside(s, g) : gen::inside(s, g));
    qs.push_back(q);
    s.show("query", q);
  }
  return qs;
}
#if PBT_PART == 1
TARGET(interp1d, 300) {
  V x = gen::grid(s, 4, 14), xo[2] = {x, other_grid(s, x)}, y[2] = {gen::values(s, (int) x.size()), gen::values(s, (int) x.size())};
  INTERP_METHOD m = s.pick({LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE});
  s.show("x", x);
  s.show("method", (int) m);
  auto qs = points(s, {x}, m != LINEAR);
  pure(s, [&](int k) {
    std::shared_ptr<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(m));
    p->Initialize(std::make_shared<V>(xo[k]), std::make_shared<V>(y[k]));
    std::shared_ptr<const Interp1d<double, double>> c = p;
    return ev([c](const V &q) { V r{c->Eval(q[0]), (*c)(q[0])}; for (double v: c->Eval(q)) r.push_back(v); r.push_back(c->GetXmin()); r.push_back(c->GetXmax()); return r; });
  }, qs);
}
TARGET(interp2d, 300) {
  V x = gen::grid(s, 2, 8), y = gen::grid(s, 2, 8), xo[2] = {x, other_grid(s, x)}, yo[2] = {y, other_grid(s, y)}, d[2] = {gen::values(s, (int) (x.size() * y.size())), gen::values(s, (int) (x.size() * y.size()))};
  auto qs = points(s, {x, y}, false);
  pure(s, [&](int k) {
    std::shared_ptr<Interp2d<double>> p(Interp2d<double>::MakeInterp2d(LINEAR));
    p->Initialize(std::make_shared<V>(xo[k]), std::make_shared<V>(yo[k]), std::make_shared<V>(d[k]));
    std::shared_ptr<const Interp2d<double>> c = p;
    return ev([c](const V &q) { V r{c->Eval(q[0], q[1])}; for (double v: c->Eval(std::vector<V>{q, q})) r.push_back(v); return r; });
  }, qs);
}
TARGET(table1d, 300) {
  V x = gen::grid(s, 4, 12), xo[2] = {x, other_grid(s, x)}, y[3];
  for (auto &v: y) v = gen::values(s, (int) x.size());
  INTERP_METHOD m = s.pick({LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE});
  auto qs = points(s, {x}, m != LINEAR);
  pure(s, [&](int k) {
    auto t = std::make_shared<LookupTable1D<double, double>>(m);
    t->SetX(xo[k]);
    t->AddY("a", y[k]);
    t->AddY("b", y[2]);
    std::shared_ptr<const LookupTable1D<double, double>> c = t;
    return ev([c](const V &q) { V r{c->Eval("a", q[0]), c->Eval("b", q[0]), (double) c->GetNbSeries(), c->GetXmin("a"), c->GetXmax("b")}; for (double v: c->Eval("b", q)) r.push_back(v); for (double v: c->GetX()) r.push_back(v); return r; });
  }, qs);
}
TARGET(table2d, 300) {
  V x = gen::grid(s, 2, 8), y = gen::grid(s, 2, 8), xo[2] = {x, other_grid(s, x)}, yo[2] = {y, other_grid(s, y)}, d[3];
  for (auto &v: d) v = gen::values(s, (int) (x.size() * y.size()));
  auto qs = points(s, {x, y}, false);
  pure(s, [&](int k) {
    auto t = std::make_shared<LookupTable2d<double>>();
    t->SetX(xo[k]);
    t->SetY(yo[k]);
    t->AddData("a", d[k]);
    t->AddData("b", d[2]);
    std::shared_ptr<const LookupTable2d<double>> c = t;
    return ev([c](const V &q) { V r{c->Eval("a", q[0], q[1]), c->Eval("b", q), (double) c->GetNbSample(), (double) c->HasSerie("b"), (double) c->HasSerie("c")}; for (double v: c->Eval("a", std::vector<V>{q, q})) r.push_back(v); return r; });
  }, qs);
}
TARGET(spline, 300) {
  V x = gen::grid(s, 4, 10), xo[2] = {x, other_grid(s, x)}, y[2] = {gen::values(s, (int) x.size()), gen::values(s, (int) x.size())};
  auto qs = points(s, {x}, false);
  pure(s, [&](int k) {
    V a = xo[k], b = y[k];
    auto p = std::make_shared<const Spline<double, 1, 3>>(a, b);
    return ev([p](const V &q) { return V{(*p)(q[0])}; });
  }, qs);
}
#elif PBT_PART == 2
TARGET(grid_interpolator, 300) {
  V x = gen::grid(s, 2, 6), y = gen::grid(s, 2, 6), xo[2] = {x, other_grid(s, x)}, yo[2] = {y, other_grid(s, y)}, d[2];
  for (auto &v: d) v = gen::values(s, (int) (x.size() * y.size()));
  auto qs = points(s, {x, y}, true);
  pure(s, [&](int k) {
    auto t = std::make_shared<RegularGridInterpolator<double, 2>>();
    t->AddCoord(xo[k]);
    t->AddCoord(yo[k]);
    boost::multi_array<double, 2> a(boost::extents[x.size()][y.size()]);
    std::copy(d[k].begin(), d[k].end(), a.data());
    t->AddVar(a);
    std::shared_ptr<const RegularGridInterpolator<double, 2>> c = t;
    return ev([c](const V &q) { V r{c->Interp({q[0], q[1]}), c->GetCoordMinVal(0), c->GetCoordMaxVal(1), (double) c->GetDimension(), (double) c->IsValid(), c->EvalAtIndice({1, 0})}; for (double v: c->GetCoord(1)) r.push_back(v); return r; });
  }, qs);
}
TARGET(grid_nearest, 300) {
  V x = gen::grid(s, 2, 6), y = gen::grid(s, 2, 6), xo[2] = {x, other_grid(s, x)}, yo[2] = {y, other_grid(s, y)}, d[2];
  for (auto &v: d) v = gen::values(s, (int) (x.size() * y.size()));
  auto qs = points(s, {x, y}, true);
  pure(s, [&](int k) {
    auto t = std::make_shared<RegularGridNearest<double, 2>>();
    t->AddCoord(xo[k]);
    t->AddCoord(yo[k]);
    boost::multi_array<double, 2> a(boost::extents[x.size()][y.size()]);
    std::copy(d[k].begin(), d[k].end(), a.data());
    t->AddVar(a);
    std::shared_ptr<const RegularGridNearest<double, 2>> c = t;
    return ev([c](const V &q) {
      V r{c->Nearest({q[0], q[1]}).val(), c->GetData({q[0], q[1]}), c->GetCoordMinVal(0), c->GetCoordMaxVal(1), (double) c->IsValid()};
      for (auto &n: c->GetSurroundingGridNodes({q[0], q[1]})) { r.push_back(n.val()); r.push_back(n.coords()[0]); r.push_back(n.coords()[1]); }
      return r;
    });
  }, qs);
}
template<class T> static MatrixMN<T> mat(const V &v, int r, int c) { MatrixMN<T> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = v[i * c + j]; return m; }
TARGET(power_series, 300) {
  int nx = (int) s.integer(1, 6), ny = (int) s.integer(1, 6), nz = (int) s.integer(1, 4);
  V b[2], c[2];
  for (auto &v: b) { v.resize(nx * ny * nz); for (auto &a: v) a = s.uniform(-3, 3); }
  double x0 = s.uniform(-2, 2), x1 = x0 + s.uniform(0.5, 3), y0 = s.uniform(0.5, 2), y1 = y0 + s.uniform(0.5, 3), z0 = s.uniform(0.5, 2), z1 = z0 + s.uniform(0.5, 3);
  auto qs = points(s, {{x0, x1}, {y0, y1}, {z0, z1}}, false);
  double lo[2] = {0, s.chance(25) ? 0. : s.uniform(0, 0.4)}, hi[2] = {0, s.chance(25) ? 0. : s.uniform(0, 3)};  // the other object has a larger domain
  pure(s, [&](int k) {
    double X0 = x0 - lo[k], X1 = x1 + hi[k], Y0 = y0 - lo[k], Y1 = y1 + hi[k], Z0 = z0 - lo[k], Z1 = z1 + hi[k];
    std::vector<MatrixMN<double>> bb;
    for (int i = 0; i < nz; ++i) bb.push_back(mat<double>(V(b[k].begin() + i * nx * ny, b[k].begin() + (i + 1) * nx * ny), nx, ny));
    VectorN<double> v(nx);
    for (int i = 0; i < nx; ++i) v(i) = b[k][i];
    auto p1 = std::make_shared<const PowerSeries1dClosed<double>>(v, X0, X1);
    auto p1o = std::make_shared<const PowerSeries1dOpened<double>>(v, Y0);
    auto p2 = std::make_shared<const PowerSeries2dClosed<double>>(bb[0], X0, X1, Y0, Y1);
    auto p2m = std::make_shared<const PowerSeries2dMixed<double>>(bb[0], X0, X1, Y0);
    auto p2o = std::make_shared<const PowerSeries2dOpened<double>>(bb[0], Y0, Z0);
    auto p3y = std::make_shared<const PowerSeries3dYZOpenedXClosed<double>>(bb, X0, X1, Y0, Z0);
    auto p3z = std::make_shared<const PowerSeries3dZOpenedXYClosed<double>>(bb, X0, X1, Y0, Y1, Z0);
    auto p3 = std::make_shared<const PowerSeries3dClosed<double>>(bb, X0, X1, Y0, Y1, Z0, Z1);
    return ev([=](const V &q) {
      return V{p1->Evaluate(q[0]), p1->Evaluate_derivative_x(q[0]), p1o->Evaluate(q[1]), p1o->Evaluate_derivative_x(q[1]), p2->Evaluate(q[0], q[1]), p2->Evaluate_derivative_x(q[0], q[1]), p2->Evaluate_derivative_y(q[0], q[1]),
               p2o->Evaluate(q[1], q[2]), p2o->Evaluate_derivative_x(q[1], q[2]), p2o->Evaluate_derivative_y(q[1], q[2]), p3y->Evaluate(q[0], q[1], q[2]), p3y->Evaluate_derivative_x(q[0], q[1], q[2]), p3y->Evaluate_derivative_y(q[0], q[1], q[2]),
               p3y->Evaluate_derivative_z(q[0], q[1], q[2]), p3z->Evaluate(q[0], q[1], q[2]), p3z->Evaluate_derivative_x(q[0], q[1], q[2]), p3z->Evaluate_derivative_y(q[0], q[1], q[2]), p3z->Evaluate_derivative_z(q[0], q[1], q[2]),
               p2m->Evaluate(q[0], q[1]), p2m->Evaluate_derivative_x(q[0], q[1]), p2m->Evaluate_derivative_y(q[0], q[1]), p3->Evaluate(q[0], q[1], q[2]), p3->Evaluate_derivative_x(q[0], q[1], q[2]), p3->Evaluate_derivative_y(q[0], q[1], q[2]), p3->Evaluate_derivative_z(q[0], q[1], q[2])};
    });
  }, qs);
}
struct F1 : Function1d<double> { double a, b; F1(double a, double b) : a(a), b(b) {} double Evaluate(const double &x) const override { return a + std::sin(b * x); } };
struct F2 : Function2d<double> { double a, b; F2(double a, double b) : a(a), b(b) {} double Evaluate(const double &x, const double &y) const override { return a * y + std::sin(b * x); } };
struct F3 : Function3d<double> { double a, b; F3(double a, double b) : a(a), b(b) {} double Evaluate(const double &x, const double &y, const double &z) const override { return a * y * z + std::sin(b * x); } };
TARGET(chebyshev_series, 200) {
  int nx = (int) s.integer(1, 6), ny = (int) s.integer(1, 5), nz = (int) s.integer(1, 3);
  double a[2] = {s.uniform(-2, 2), s.uniform(-2, 2)}, b[2] = {s.uniform(-2, 2), s.uniform(-2, 2)};
  double x0 = s.uniform(-2, 2), x1 = x0 + s.uniform(0.5, 3), y0 = s.uniform(0.5, 2), y1 = y0 + s.uniform(0.5, 3), z0 = s.uniform(0.5, 2), z1 = z0 + s.uniform(0.5, 3);
  auto qs = points(s, {{x0, x1}, {y0, y1}, {z0, z1}}, false);
  double lo[2] = {0, s.chance(25) ? 0. : s.uniform(0, 0.4)}, hi[2] = {0, s.chance(25) ? 0. : s.uniform(0, 3)};  // the other object has a larger domain
  pure(s, [&](int k) {
    double X0 = x0 - lo[k], X1 = x1 + hi[k], Y0 = y0 - lo[k], Y1 = y1 + hi[k], Z0 = z0 - lo[k], Z1 = z1 + hi[k];
    auto f1 = std::make_shared<F1>(a[k], b[k]);
    auto f2 = std::make_shared<F2>(a[k], b[k]);
    auto f3 = std::make_shared<F3>(a[k], b[k]);
    auto c1 = std::make_shared<ChebyshevSeries1dClosed<double>>(f1.get(), X0, X1, nx);
    auto c2 = std::make_shared<ChebyshevSeries2dClosed<double>>(f2.get(), X0, X1, Y0, Y1, nx, ny);
    auto c3 = std::make_shared<ChebyshevSeries3dClosed<double>>(f3.get(), X0, X1, Y0, Y1, Z0, Z1, nx, ny, nz);
    c1->Compute_ai();
    c2->Compute_aij();
    c3->Compute_aijk();
    std::shared_ptr<const ChebyshevSeries1dClosed<double>> d1 = c1;
    std::shared_ptr<const ChebyshevSeries2dClosed<double>> d2 = c2;
    std::shared_ptr<const ChebyshevSeries3dClosed<double>> d3 = c3;
    return ev([=](const V &q) {
      (void) f1; (void) f2; (void) f3;
      return V{d1->Evaluate(q[0]), d1->Evaluate_derivative_x(q[0]), d2->Evaluate(q[0], q[1]), d2->Evaluate_derivative_x(q[0], q[1]), d2->Evaluate_derivative_y(q[0], q[1]), d3->Evaluate(q[0], q[1], q[2]), d3->Evaluate_derivative_x(q[0], q[1], q[2]),
               d3->Evaluate_derivative_y(q[0], q[1], q[2]), d3->Evaluate_derivative_z(q[0], q[1], q[2])};
    });
  }, qs);
}
#else
struct G : Integrand<double> { double a; explicit G(double a) : a(a) {} double Evaluate(const Vector3d<double> &x) const override { return a + x(0) * x(1) - x(2) * x(2); } };
TARGET(quadrature, 200) {
  int o = (int) s.integer(1, 8);
  double a[2] = {s.uniform(-2, 2), s.uniform(-2, 2)};
  auto qs = points(s, std::vector<V>(9, V{-2, 3}), false);
  pure(s, [&](int k) {
    auto g = std::make_shared<G>(a[k]);
    auto p = std::make_shared<const Integration2dTriangle<double>>(g.get(), o);
    return ev([=](const V &q) { (void) g; return V{p->Compute(Vector3d<double>(q[0], q[1], q[2]), Vector3d<double>(q[3], q[4], q[5]), Vector3d<double>(q[6], q[7], q[8]))}; });
  }, qs);
}
template<class M> static void put(V &r, const M &m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) r.push_back(m(i, j)); }
template<class M> static V queries(const M &m) {
  V r;
  M Q(m), R(m), P(m), L(m), U(m);
  m.GetQRDecomposition(Q, R); put(r, Q); put(r, R);
  m.GetLUDecomposition(P, L, U); put(r, P); put(r, L); put(r, U);
  put(r, m.GetInverse());
  put(r, m.GetDiag());
  put(r, m.GetRow(1));
  put(r, m.GetColumn(0));
  put(r, Transpose(m));
  r.push_back(m.IsSymmetric()); r.push_back(m.IsIdentity()); r.push_back(m.IsOrthogonal()); r.push_back(m.IsSquare()); r.push_back(m.IsEqual(m));
  put(r, m);
  return r;
}
TARGET(matrices, 150) {  // the query is added to the diagonal of a copy: the matrices themselves are shared
  V a[2];
  for (auto &v: a) { v.resize(9); for (auto &x: v) x = s.uniform(-1, 1); }
  auto qs = points(s, std::vector<V>(3, V{-4, 4}), false);
  for (auto &q: qs) for (auto &v: q) v += v < 0 ? -4 : 4;
  pure(s, [&](int k) {
    auto m = std::make_shared<MatrixMN<double>>(3, 3);
    auto n = std::make_shared<Matrix33<double>>();
    for (int i = 0; i < 9; ++i) (*m)(i / 3, i % 3) = (*n)(i / 3, i % 3) = a[k][i] + (i % 4 ? 0 : 4);
    std::shared_ptr<const MatrixMN<double>> cm = m;
    std::shared_ptr<const Matrix33<double>> cn = n;
    return ev([=](const V &q) {
      V r = queries(*cm), t = queries(*cn);
      r.insert(r.end(), t.begin(), t.end());
      MatrixMN<double> b(3, 1);
      b << q[0], q[1], q[2];
      put(r, cm->LUSolver(b)); put(r, cm->QRSolver(b)); put(r, cm->LeastSquareSolver(b)); put(r, cm->GetPseudoInverse(1e-12));
      Vector3d<double> v(q[0], q[1], q[2]);
      put(r, cn->LUSolver(v)); put(r, cn->GetPseudoInverse(1e-12));
      put(r, outer(v)); r.push_back(inner(v, v)); r.push_back(v.infNorm()); r.push_back(v.GetProjectedAngleAroundZ(DEG));
      return r;
    });
  }, qs);
}
TARGET(functions, 300) {  // free functions: no state between calls
  auto qs = points(s, {V{0.05, 30}, V{-1, 1}, V{-700, 700}}, false);
  V c[2];
  for (auto &v: c) { v.resize(s.integer(1, 8)); for (auto &a: v) a = s.uniform(-2, 2); }
  pure(s, [&](int k) {
    V a = c[k];
    return ev([a0 = a](const V &q) {
      V a = a0;
      double x = q[0], t = q[1], w = q[2];
      int n = 1 + (int) std::fabs(w) % 6;
      V r{Cyl_Bessel_first_kind<int, double, double>(n, x), Cyl_Bessel_second_kind<int, double, double>(n, x), Cyl_modified_Bessel_first_kind<int, double, double>(n, x), Cyl_modified_Bessel_second_kind<int, double, double>(n, x), Cyl_Bessel_first_kind_derivative<int, double, double>(n, x),
          Legendre_polynomial<int, double>(n, t), Legendre_polynomial_derivative<int, double>(n, t), Chebyshev_polynomial<int, double>(n, t), Chebyshev_polynomial_derivative<int, double>(n, t), Factorial<int, double>(n), Struve_zero_order(x), Struve_first_order(x),
          Struve_zero_order_derivative(x), Ei(x), Ei_approximation(x), expEi(x), E1(x), E1_approximation(x), Horner<double>(a, t), Horner_derivative<double>(a, t), Normalize_0_360(w), Normalize__180_180(w), Normalize_0_2PI(w), Normalize__PI_PI(w),
          convert_velocity_unit(w, KNOT, KMH), convert_frequency(x, RPM, S), sgn(w) * SgnSqrt(x), Saturate(w, -3., 5.)};
      for (double v: Sinc(q)) r.push_back(v);
      for (double v: Heaviside(q, t)) r.push_back(v);
      for (double v: linspace<double>(t, x + 1, 4)) r.push_back(v);
      for (double v: arange<double>(t, x + 2, 3.)) r.push_back(v);
      r.push_back(Trapz(q, a.size() >= 3 ? V(a.begin(), a.begin() + 3) : V{1, 2, 3}));
      Eigen::Vector3d e(t, t / 2, 0.25 * t);
      auto R = eulerAnglesZYXToRotationMatrix(e);
      put(r, R);
      put(r, rotationMatrixToEulerAnglesZYX(R));
      Vector2d<double> v(x, t);
      v.ProjectLocalOnNED(w, DEG);
      r.push_back(v[0]); r.push_back(v[1]);
      return r;
    });
  }, qs);
}
#endif
