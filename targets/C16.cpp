// C16: quadrature over triangles.
#include "pbt.h"
#include <iostream>
#include "MathUtils/VectorN.h"
#include "MathUtils/Integration2dTriangle.h"
using namespace mathutils;
PBT_PROPERTY("C16",
             "triangles in space (random, needle-like, tiny, large, flat, degenerate, both orientations), every order 1..8, integrands that are products of at most `order` random linear forms (scalar, complex, 3-vector, "
             "3x3-matrix and dynamic-vector valued), against the exact integral from the barycentric moment formula in long double; vertex permutations, subdivision at the centroid and refused orders; "
             "non-trivial: a non-degenerate triangle and an integrand of degree at least 1")
typedef long double LD;
typedef Vector3d<double> V3;

struct Poly {  // product of affine forms a.x + b
  std::vector<std::array<double, 4>> f;
  double eval(const V3 &x) const { double p = 1; for (auto &c: f) p *= c[0] * x.at(0) + c[1] * x.at(1) + c[2] * x.at(2) + c[3]; return p; }
  // exact integral over the triangle, area given; mag: a bound of |integrand|*area
  LD integral(const V3 v[3], LD area, LD &mag) const {
    int d = (int) f.size();
    // homogeneous polynomial in the barycentric coordinates: c[i][j] is the coefficient of l1^i l2^j l3^(deg-i-j)
    std::vector<std::vector<LD>> c(1, std::vector<LD>(1, 1)), m = c;
    for (int k = 0; k < d; ++k) {
      LD l[3], a[3];
      for (int q = 0; q < 3; ++q) {
        l[q] = (LD) f[k][0] * v[q].at(0) + (LD) f[k][1] * v[q].at(1) + (LD) f[k][2] * v[q].at(2) + f[k][3];
        a[q] = std::fabs((LD) f[k][0] * v[q].at(0)) + std::fabs((LD) f[k][1] * v[q].at(1)) + std::fabs((LD) f[k][2] * v[q].at(2)) + std::fabs((LD) f[k][3]);
      }
      std::vector<std::vector<LD>> n(k + 2, std::vector<LD>(k + 2, 0)), nm = n;
      for (int i = 0; i <= k; ++i) for (int j = 0; i + j <= k; ++j) {
        n[i + 1][j] += c[i][j] * l[0]; n[i][j + 1] += c[i][j] * l[1]; n[i][j] += c[i][j] * l[2];
        nm[i + 1][j] += m[i][j] * a[0]; nm[i][j + 1] += m[i][j] * a[1]; nm[i][j] += m[i][j] * a[2];
      }
      c = n;
      m = nm;
    }
    LD fact[16] = {1};
    for (int i = 1; i < 16; ++i) fact[i] = fact[i - 1] * i;
    LD r = 0;
    mag = 0;
    LD mm = 1;
    for (int k = 0; k < d; ++k) { LD b = 0; for (int q = 0; q < 3; ++q) b = std::max(b, std::fabs((LD) f[k][0] * v[q].at(0)) + std::fabs((LD) f[k][1] * v[q].at(1)) + std::fabs((LD) f[k][2] * v[q].at(2)) + std::fabs((LD) f[k][3])); mm *= b; }
    for (int i = 0; i <= d; ++i) for (int j = 0; i + j <= d; ++j) r += c[i][j] * fact[i] * fact[j] * fact[d - i - j] / fact[d + 2];
    mag = mm * area;
    return r * 2 * area;
  }
};
static Poly gen_poly(pbt::Src &s, int maxdeg) {
  Poly p;
  int d = s.chance(60) ? maxdeg : (int) s.integer(0, maxdeg);
  for (int k = 0; k < d; ++k) {
    std::array<double, 4> c;
    for (auto &x: c) x = s.chance(30) ? (double) s.integer(-2, 2) : s.uniform(-1, 1);
    p.f.push_back(c);
  }
  return p;
}
static LD tri_area(const V3 v[3]) {
  LD e1[3], e2[3];
  for (int i = 0; i < 3; ++i) { e1[i] = (LD) v[1].at(i) - v[0].at(i); e2[i] = (LD) v[2].at(i) - v[0].at(i); }
  LD x = e1[1] * e2[2] - e1[2] * e2[1], y = e1[2] * e2[0] - e1[0] * e2[2], z = e1[0] * e2[1] - e1[1] * e2[0];
  return 0.5L * std::sqrt(x * x + y * y + z * z);
}
static void gen_tri(pbt::Src &s, V3 v[3], LD &area) {
  double c = s.chance(25) ? s.positive(-3, 2) : s.chance(15) ? s.positive(-10, 10) : 1.;
  int kind = (int) s.draw(7);
  double flat = s.chance(50) ? 0.01 : s.positive(-12, 0);
  V3 o(s.uniform(-2, 2), s.uniform(-2, 2), s.uniform(-2, 2));
  for (int i = 0; i < 3; ++i) {
    v[i] = V3(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1));
    if (kind == 0) v[i] = V3((double) s.integer(0, 2), (double) s.integer(0, 2), 0);
    if (kind == 1) v[i].at(2) = 0.3;
    if (kind == 2 || kind == 5) v[i].at(1) *= flat;
    if (kind == 5) v[i].at(2) = 0;
    if (kind == 6 && i == 2) v[i] = v[(int) s.draw(2)] + v[i] * flat;  // a short edge
    v[i] = v[i] * c;
    if (kind == 3) v[i] = v[i] + o;
  }
  area = tri_area(v);
  for (int i = 0; i < 3; ++i) s.show("vertex", std::vector<double>{v[i].at(0), v[i].at(1), v[i].at(2)});
}
static LD coord(const V3 v[3]) { LD m = 0; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) m = std::max(m, std::fabs((LD) v[i].at(k))); return m; }
static LD span(const V3 v[3]) { LD m = 0; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) m = std::max(m, std::fabs((LD) v[i].at(k) - v[(i + 1) % 3].at(k))); return m; }

// bound of |f| over the triangle even when the area is null
static LD fmag(const Poly &p, const V3 v[3]) { LD m; p.integral(v, 1, m); return m; }

// The tables have 14 digits.  The area itself carries an error of a few eps*span^2, which dominates for flat triangles.
static LD tolerance(const Poly &p, const V3 v[3], LD mag) { return 4e-12L * mag + 20 * pbt::EPS * fmag(p, v) * span(v) * span(v) + 1e-300L; }

struct Scalar : Integrand<double> { Poly p; double Evaluate(const V3 &x) const override { return p.eval(x); } };
struct Cplx : Integrand<std::complex<double>> { Poly p, q; std::complex<double> Evaluate(const V3 &x) const override { return {p.eval(x), q.eval(x)}; } };
struct Vec : Integrand<V3> { Poly p[3]; V3 Evaluate(const V3 &x) const override { return V3(p[0].eval(x), p[1].eval(x), p[2].eval(x)); } };
struct Mat : Integrand<Matrix33<double>> {
  Poly p[3];
  Matrix33<double> Evaluate(const V3 &x) const override { Matrix33<double> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.at(i, j) = p[i].eval(x) * (j + 1); return m; }
};
struct Dyn : Integrand<VectorN<double>> {
  std::vector<Poly> p;
  VectorN<double> Evaluate(const V3 &x) const override { VectorN<double> v((unsigned) p.size()); for (size_t i = 0; i < p.size(); ++i) v.at((unsigned) i) = p[i].eval(x); return v; }
};

TARGET(scalar, 40000) {
  int order = (int) s.integer(1, 8);
  V3 v[3];
  LD area;
  s.show("order", order);
  gen_tri(s, v, area);
  Scalar F;
  F.p = gen_poly(s, order);
  s.show("degree", F.p.f.size());
  s.label("order " + std::to_string(order));
  LD mag, want = F.p.integral(v, area, mag);
  LD tol = tolerance(F.p, v, mag);
  s.nontrivial(F.p.f.size() >= 1 && area > 1e-12L);
  Integration2dTriangle<double> I(&F, order);
  double g = I.Compute(v[0], v[1], v[2]);
  pbt::near(g, want, tol, "integral over the triangle");
  CHECK(I.Compute(v[0], v[1], v[2]) == g, "two computations differ");
  static const int P[5][3] = {{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  auto &p = P[s.draw(5)];
  pbt::near(I.Compute(v[p[0]], v[p[1]], v[p[2]]), want, tol, "integral with permuted vertices");
  // subdivision at a point of the triangle
  double a = s.uniform(0, 1), b = s.uniform(0, 1 - a);
  V3 m(v[0] * (1 - a - b) + v[1] * a + v[2] * b);
  double parts = I.Compute(v[0], v[1], m) + I.Compute(v[1], v[2], m) + I.Compute(v[2], v[0], m);
  pbt::near(parts, want, 4 * tol + 1e-11L * mag + 40 * pbt::EPS * fmag(F.p, v) * span(v) * coord(v), "sum of the integrals over three sub-triangles");
}
// any function: the rule of each order is symmetric, and constant functions give the area
TARGET(area_and_symmetry, 15000) {
  int order = (int) s.integer(1, 8);
  V3 v[3];
  LD area;
  s.show("order", order);
  gen_tri(s, v, area);
  Scalar F;
  Integration2dTriangle<double> I(&F, order);
  pbt::near(I.Compute(v[0], v[1], v[2]), area, 4e-13L * area + 20 * pbt::EPS * span(v) * span(v), "area");
  F.p = gen_poly(s, 8);  // the degree may exceed the order
  LD mag;
  F.p.integral(v, area, mag);
  double g = I.Compute(v[0], v[1], v[2]);
  LD tol = 4e-12L * mag + tolerance(F.p, v, mag);
  pbt::near(I.Compute(v[1], v[2], v[0]), g, tol, "rotated vertices");
  pbt::near(I.Compute(v[1], v[0], v[2]), g, tol, "swapped vertices");
  s.nontrivial(area > 1e-12L);
}
// A mesh: triangles computed one after the other, each with vertices, coordinates or edges in common with the one before,
// and rules of other orders and integrands in between.
TARGET(mesh, 8000) {
  V3 v[3];
  LD area;
  gen_tri(s, v, area);
  Scalar F[2];
  int order[2];
  for (int i = 0; i < 2; ++i) { order[i] = (int) s.integer(1, 8); F[i].p = gen_poly(s, order[i]); }
  s.show("orders", std::vector<int>{order[0], order[1]});
  Integration2dTriangle<double> A(&F[0], order[0]), B(&F[1], order[1]);
  int n = (int) s.integer(2, 8);
  double c = (double) std::max(span(v), coord(v));
  for (int k = 0; k < n; ++k) {
    if (k) {
      int i = (int) s.draw(3);
      switch (s.draw(6)) {
        case 0: v[i].at((int) s.draw(3)) += c * s.uniform(-1, 1); break;                         // one coordinate of one vertex
        case 1: v[i] = V3(c * s.uniform(-1, 1), c * s.uniform(-1, 1), c * s.uniform(-1, 1)); break;  // the neighbour across an edge
        case 2: { V3 t(c * s.uniform(-1, 1), c * s.uniform(-1, 1), c * s.uniform(-1, 1)); for (int q = 0; q < 3; ++q) v[q] = v[q] + t; break; }
        case 3: std::swap(v[i], v[(i + 1) % 3]); break;
        case 4: { int q = (int) s.draw(3); v[0].at(q) *= -1; v[1].at(q) *= -1; v[2].at(q) *= -1; break; }  // mirrored
        default: { double f = s.pick({2., 0.5, -1.}); for (int q = 0; q < 3; ++q) v[q] = v[q] * f; }
      }
      for (int q = 0; q < 3; ++q) s.show("vertex", std::vector<double>{v[q].at(0), v[q].at(1), v[q].at(2)});
    }
    LD ar = tri_area(v);
    for (int r = 0; r < 2; ++r) {
      if (s.chance(30)) continue;
      LD mag, want = F[r].p.integral(v, ar, mag);
      pbt::near((r ? B : A).Compute(v[0], v[1], v[2]), want, tolerance(F[r].p, v, mag), "integral over triangle " + std::to_string(k) + " of the mesh");
    }
  }
  s.nontrivial(area > 1e-12L);
}
TARGET(multi, 12000) {
  int order = (int) s.integer(1, 8);
  V3 v[3];
  LD area;
  s.show("order", order);
  gen_tri(s, v, area);
  Poly p[3];
  LD want[3], tol[3];
  for (int i = 0; i < 3; ++i) {
    p[i] = gen_poly(s, order);
    LD mag;
    want[i] = p[i].integral(v, area, mag);
    tol[i] = tolerance(p[i], v, mag);
  }
  s.nontrivial(area > 1e-12L && p[0].f.size() + p[1].f.size() > 0);
  Cplx C;
  C.p = p[0];
  C.q = p[1];
  auto c = Integration2dTriangle<std::complex<double>>(&C, order).Compute(v[0], v[1], v[2]);
  pbt::near(c.real(), want[0], tol[0], "complex integrand, real part");
  pbt::near(c.imag(), want[1], tol[1], "complex integrand, imaginary part");
  Vec V;
  Mat M;
  for (int i = 0; i < 3; ++i) V.p[i] = M.p[i] = p[i];
  V3 r = Integration2dTriangle<V3>(&V, order).Compute(v[0], v[1], v[2]);
  auto mm = Integration2dTriangle<Matrix33<double>>(&M, order).Compute(v[0], v[1], v[2]);
  Dyn D;
  int nd = (int) s.integer(1, 3);
  D.p.assign(p, p + nd);
  auto d = Integration2dTriangle<VectorN<double>>(&D, order).Compute(v[0], v[1], v[2]);
  CHECK((int) d.size() == nd, "size of the integral of a vector");
  for (int i = 0; i < 3; ++i) {
    pbt::near(r.at(i), want[i], tol[i], "vector integrand");
    for (int j = 0; j < 3; ++j) pbt::near(mm.at(i, j), want[i] * (j + 1), tol[i] * (j + 1), "matrix integrand");
    if (i < nd) pbt::near(d.at(i), want[i], tol[i], "dynamic vector integrand");
  }
}
TARGET_FORK(refused_order, 300) {
  int o = s.boolean() ? (int) s.integer(-20, 0) : (int) s.integer(9, 100);
  s.show("order", o);
  s.nontrivial();
  Scalar F;
  V3 a(0, 0, 0), b(1, 0, 0), c(0, 1, 0);
  auto r = pbt::in_child([&] { freopen("/dev/null", "w", stdout); Integration2dTriangle<double> I(&F, o); I.Compute(a, b, c); });
  CHECK(r.kind == pbt::ChildResult::THREW || r.kind == pbt::ChildResult::EXITED, "order " << o << " is not refused: " << pbt::str(r));
}
