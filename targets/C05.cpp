// C05: bilinear interpolation on a grid and LookupTable2d histories.
// scale: 16
#include "pbt.h"
#include "gen.h"
#include "MathUtils/LookupTable2D.h"
using namespace mathutils;
PBT_PROPERTY("C05",
             "grids of 2..40 x 2..40 nodes (irregular, offset, non square), queries on nodes, edges, next to nodes and inside cells, scalar and list "
             "forms, re-initialised interpolators and table histories (set X/Y, add data under fresh and used names, evaluate, query), against an "
             "independent bilinear model in long double; non-trivial: a query strictly inside a cell of a non-square grid, or a history with a rejected name or changed grid")

struct Grid {
  std::vector<double> x, y, d;
};
static Grid gen_grid(pbt::Src &s, int nmax) {
  Grid g;
  int longer = s.chance(2) ? 1 + (int) s.draw(2) : 0;  // many nodes along one direction only
  g.x = longer == 1 ? gen::grid(s, 65, 700) : gen::grid(s, 2, longer ? 4 : nmax, longer ? 0 : 130);
  g.y = longer == 2 ? gen::grid(s, 65, 700) : gen::grid(s, 2, longer ? 4 : nmax, longer ? 0 : 130);
  g.d = gen::values(s, (int) (g.x.size() * g.y.size()));
  return g;
}
static long double ref(const Grid &g, double qx, double qy, long double &tol) {
  size_t nx = g.x.size(), ny = g.y.size(), i = 1, j = 1;
  while (i + 1 < nx && qx > g.x[i]) ++i;
  while (j + 1 < ny && qy > g.y[j]) ++j;
  long double x0 = g.x[i - 1], x1 = g.x[i], y0 = g.y[j - 1], y1 = g.y[j];
  auto D = [&](size_t a, size_t b) { return (long double) g.d[a * ny + b]; };
  long double t = (qx - x0) / (x1 - x0), u = (qy - y0) / (y1 - y0);
  long double dm = std::max({std::fabs(D(i, j)), std::fabs(D(i - 1, j)), std::fabs(D(i, j - 1)), std::fabs(D(i - 1, j - 1))});
  long double xm = std::max(std::fabs(x0), std::fabs(x1)), ym = std::max(std::fabs(y0), std::fabs(y1));
  tol = 16 * pbt::EPS * dm * (2 + 4 * (1 + xm / (x1 - x0)) * (1 + ym / (y1 - y0))) + 1e-300L;
  return (1 - t) * (1 - u) * D(i - 1, j - 1) + t * (1 - u) * D(i, j - 1) + (1 - t) * u * D(i - 1, j) + t * u * D(i, j);
}
static std::shared_ptr<const std::vector<double>> sp(const std::vector<double> &v) { return std::make_shared<const std::vector<double>>(v); }

TARGET(bilinear, 40000) {
  std::unique_ptr<Interp2d<double>> owned;
  Interp2dLinear<double> direct;
  Interp2d<double> *f = &direct;
  if (s.boolean()) {
    owned.reset(Interp2d<double>::MakeInterp2d(LINEAR));
    f = owned.get();
  }
  int rounds = s.chance(25) ? (int) s.integer(2, 3) : 1;
  bool nt = rounds > 1;
  if (rounds > 1) s.label("re-initialised");
  Grid g, og;
  Interp2dLinear<double> other;  // with the data of an earlier round, asked the same points
  std::shared_ptr<std::vector<double>> px, py, pd;
  for (int r = 0; r < rounds; ++r) {
    int how = r > 0 && s.chance(60) ? (int) s.integer(1, 7) : 0;  // bits: data, x, y changed
    if (how == 0) g = gen_grid(s, 40);
    if (how & 1) gen::perturb(s, g.d);
    if (how & 2) gen::perturb_grid(s, g.x);
    if (how & 4) gen::perturb_grid(s, g.y);
    bool same = how && s.chance(30);
    if (same) { *px = g.x; *py = g.y; *pd = g.d; s.label("same objects, new contents"); }
    else {
      if (how == 0 || (how & 1)) pd = std::make_shared<std::vector<double>>(g.d);
      if (how == 0 || (how & 2)) px = std::make_shared<std::vector<double>>(g.x);
      if (how == 0 || (how & 4)) py = std::make_shared<std::vector<double>>(g.y);
      if (how) s.label("re-initialised with nearly the same data");
    }
    s.show("x", g.x);
    s.show("y", g.y);
    s.show("data", g.d);
    f->Initialize(px, py, pd);
    CHECK(f->GetXmin() == g.x.front() && f->GetXmax() == g.x.back() && f->GetYmin() == g.y.front() && f->GetYmax() == g.y.back(), "wrong range");
    int q = (int) s.integer(1, 8);
    std::vector<std::vector<double>> pts;
    for (int k = 0; k < q; ++k) {
      double a = gen::inside(s, g.x), b = gen::inside(s, g.y);
      pts.push_back({a, b});
      bool nx = std::binary_search(g.x.begin(), g.x.end(), a), ny = std::binary_search(g.y.begin(), g.y.end(), b);
      s.label(nx && ny ? "node" : nx || ny ? "edge" : "cell");
      if (!nx && !ny && g.x.size() != g.y.size()) nt = true;
    }
    auto all = f->Eval(pts);
    auto all2 = (*f)(pts);
    CHECK(all.size() == pts.size() && all2 == all, "list evaluation");
    for (int k = 0; k < q; ++k) {
      if (!og.x.empty() && s.boolean()) {
        double a = pts[k][0], b = pts[k][1];
        if (a >= og.x.front() && a <= og.x.back() && b >= og.y.front() && b <= og.y.back()) {
          long double t2, w2 = ref(og, a, b, t2);
          pbt::near(other.Eval(a, b), w2, t2, "value of another interpolator");
        }
      }
      long double tol, want = ref(g, pts[k][0], pts[k][1], tol);
      double got = f->Eval(pts[k][0], pts[k][1]);
      pbt::near(got, want, tol, "bilinear value at (" + pbt::str(pts[k][0]) + "," + pbt::str(pts[k][1]) + ")");
      CHECK((*f)(pts[k][0], pts[k][1]) == got && all[k] == got, "call operator, list and scalar evaluation differ");
    }
    if (r + 1 < rounds && s.boolean()) { og = g; other.Initialize(sp(g.x), sp(g.y), sp(g.d)); }
  }
  s.nontrivial(nt);
}

TARGET(all_nodes, 6000) {
  Grid g = gen_grid(s, 14);
  s.show("x", g.x);
  s.show("y", g.y);
  s.show("data", g.d);
  s.nontrivial(g.x.size() != g.y.size());
  Interp2dLinear<double> f;
  f.Initialize(sp(g.x), sp(g.y), sp(g.d));
  for (size_t i = 0; i < g.x.size(); ++i)
    for (size_t j = 0; j < g.y.size(); ++j) {
      long double tol;
      ref(g, g.x[i], g.y[j], tol);
      pbt::near(f.Eval(g.x[i], g.y[j]), g.d[i * g.y.size() + j], tol, "node (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
}

TARGET(table_history, 15000) {
  LookupTable2d<double> t;
  std::map<std::string, Grid> m;
  Grid cur = gen_grid(s, 12);
  t.SetX(cur.x);
  t.SetY(cur.y);
  bool disturbed = false, nt = false;
  std::vector<std::string> names = gen::names(s, {"cx", "cy", "", "CX", "cx ", "long name of a series", "z1", "z2"});
  int ops = s.size(1, 25);
  for (int k = 0; k < ops; ++k) {
    switch (s.draw(8)) {
      case 7: {  // refused insertion: no effect
        std::string n = s.pick(names);
        bool used = m.count(n) > 0, threw = false, answer = true;
        Grid g = cur;
        g.d = gen::values(s, (int) (g.x.size() * g.y.size()));
        bool bad_method = s.boolean();
        if (bad_method) t.SetInterpolationMethod(s.pick({LINEAR_EXTRAPOLATE, LINEAR_SATURATE, BSPLINE}));
        else g.d.resize((size_t) s.draw(g.d.size()));
        s.desc << "AddData('" << n << (bad_method ? "', with a method that does not exist in 2D) " : "', too few values) ");
        try { answer = t.AddData(n, g.d); } catch (...) { threw = true; }
        CHECK(used ? !threw && !answer : threw, "a series with " << (bad_method ? "a method that does not exist" : "too few values") << " is accepted");
        if (bad_method) t.SetInterpolationMethod(LINEAR);
        disturbed = true;
        s.label("refused insertion");
        break;
      }
      case 0:
        if (s.boolean()) gen::perturb_grid(s, cur.x);
        else cur.x = gen::grid(s, 2, 12, 60);
        t.SetX(cur.x);
        s.desc << "SetX(" << pbt::str(cur.x) << ") ";
        if (!m.empty()) disturbed = true;
        break;
      case 1:
        if (s.boolean()) gen::perturb_grid(s, cur.y);
        else cur.y = gen::grid(s, 2, 12, 60);
        t.SetY(cur.y);
        s.desc << "SetY(" << pbt::str(cur.y) << ") ";
        if (!m.empty()) disturbed = true;
        break;
      case 2:
        t.SetInterpolationMethod(LINEAR);
        break;
      case 3: {
        bool threw = false;
        try { t.Eval(s.pick(names) + "?", cur.x[0], cur.y[0]); } catch (const std::exception &) { threw = true; }
        CHECK(threw, "an unknown series is evaluated");
        s.label("unknown name");
        break;
      }
      default: {
        std::string n = s.pick(names);
        Grid g = cur;
        g.d = gen::values(s, (int) (g.x.size() * g.y.size()));
        bool expect = !m.count(n);
        s.desc << "AddData('" << n << "'," << pbt::str(g.d) << ") ";
        CHECK(t.AddData(n, g.d) == expect, "insertion of '" << n << "': wrong answer");
        if (expect) m[n] = g;
        else { disturbed = true; s.label("duplicate name rejected"); }
      }
    }
    CHECK(t.GetX() == cur.x && t.GetY() == cur.y, "coordinates");
    CHECK(t.GetNbSample() == cur.x.size() * cur.y.size(), "number of samples");
    CHECK(t.GetNbSeries() == m.size(), "number of series " << t.GetNbSeries() << " instead of " << m.size());
    for (auto &n: names) CHECK(t.HasSerie(n) == (m.count(n) > 0), "presence of '" << n << "'");
    for (auto &e: m) {
      double a = gen::inside(s, e.second.x), b = gen::inside(s, e.second.y);
      long double tol, want = ref(e.second, a, b, tol);
      double got = t.Eval(e.first, a, b);
      pbt::near(got, want, tol, "series '" + e.first + "'");
      CHECK(t.Eval(e.first, std::vector<double>{a, b}) == got, "point given as a vector: different value");
      std::vector<std::vector<double>> pts = {{a, b}, {e.second.x.back(), e.second.y.front()}};
      auto r = t.Eval(e.first, pts);
      CHECK(r.size() == 2 && r[0] == got, "list evaluation");
      want = ref(e.second, pts[1][0], pts[1][1], tol);
      pbt::near(r[1], want, tol, "list evaluation at a corner");
      if (disturbed) nt = true;
    }
  }
  s.nontrivial(nt);
}

TARGET(rejection, 300) {
  auto method = s.pick({LINEAR_EXTRAPOLATE, LINEAR_SATURATE, BSPLINE});
  s.show("method", (int) method);
  s.nontrivial();
  bool threw = false;
  try { delete Interp2d<double>::MakeInterp2d(method); } catch (...) { threw = true; }
  CHECK(threw, "a method that does not exist in 2D is accepted");
}
