// C07: RegularGridNearest.
#include "pbt.h"
#include "gen.h"
#include "MathUtils/RegularGridNearest.h"
using namespace mathutils;
PBT_PROPERTY("C07",
             "grids of dimension 1..4 with 1..25 nodes per axis, integer/double/string data, queries at nodes, exact mid points, inside, and outside on every side, "
             "plus histories of copies/assignments/data replacement, against an exhaustive nearest-node search and an independent enclosing-cell model; "
             "non-trivial: a query that is not a node, or outside on some axis, or on an object that was copied or refilled")

template<size_t N, class D>
struct Model {
  std::vector<std::vector<double>> grid;
  std::vector<D> data;
  size_t count() const { size_t n = 1; for (auto &g: grid) n *= g.size(); return n; }
  D at(const std::array<size_t, N> &i) const {
    size_t k = 0;
    for (size_t d = 0; d < N; ++d) k = k * grid[d].size() + i[d];
    return data[k];
  }
};
template<class D> D gen_val(pbt::Src &s);
template<> int gen_val<int>(pbt::Src &s) { return (int) s.integer(-1000, 1000); }
template<> double gen_val<double>(pbt::Src &s) { return s.scaled(-3, 3); }
template<> std::string gen_val<std::string>(pbt::Src &s) { return "v" + std::to_string(s.integer(0, 100000)) + (s.boolean() ? " with a long tail beyond the small buffer" : ""); }

template<size_t N, class D>
static boost::multi_array<D, N> to_array(pbt::Src &s, const Model<N, D> &m) {
  std::vector<size_t> ex;
  for (auto &g: m.grid) ex.push_back(g.size());
  bool fortran = s.chance(15);
  if (fortran) s.label("fortran order");
  boost::multi_array<D, N> a(ex, fortran ? boost::general_storage_order<N>(boost::fortran_storage_order()) : boost::general_storage_order<N>(boost::c_storage_order()));
  std::array<size_t, N> idx;
  for (size_t k = 0; k < m.data.size(); ++k) {
    size_t r = k;
    for (size_t d = N; d-- > 0;) { idx[d] = r % m.grid[d].size(); r /= m.grid[d].size(); }
    a(idx) = m.data[k];
  }
  if (s.chance(10)) { s.label("shifted index base"); a.reindex((long) s.integer(1, 3)); }
  return a;
}
template<size_t N, class D>
static Model<N, D> gen_model(pbt::Src &s) {
  static const int cap[] = {0, 25, 10, 6, 4, 3}, big[] = {0, 2000, 120, 25, 9, 5};
  Model<N, D> m;
  for (size_t d = 0; d < N; ++d) m.grid.push_back(gen::grid(s, s.chance(10) ? 1 : 2, cap[N], big[N]));
  m.data.resize(m.count());
  for (auto &v: m.data) v = gen_val<D>(s);
  return m;
}

template<size_t N, class D>
static void verify(pbt::Src &s, const RegularGridNearest<D, N> &f, const Model<N, D> &m, bool &nt) {
  CHECK(f.GetDimension() == N && f.IsValid(), "dimension/validity");
  for (size_t d = 0; d < N; ++d) {
    CHECK(f.GetCoord((unsigned) d) == m.grid[d], "coordinates of axis " << d);
    CHECK(f.GetCoordMinVal((unsigned) d) == m.grid[d].front() && f.GetCoordMaxVal((unsigned) d) == m.grid[d].back(), "limits of axis " << d);
  }
  std::array<double, N> p;
  std::array<size_t, N> lo, hi;
  bool node = true, out = false;
  for (size_t d = 0; d < N; ++d) {
    auto &g = m.grid[d];
    p[d] = s.chance(25) ? gen::outside(s, g) : gen::inside(s, g);
    if (!std::binary_search(g.begin(), g.end(), p[d])) node = false;
    if (p[d] < g.front()) { lo[d] = hi[d] = 0; out = true; s.label("below"); }
    else if (p[d] >= g.back()) { lo[d] = hi[d] = g.size() - 1; if (p[d] > g.back()) { out = true; s.label("above"); } }
    else {
      size_t i = 0;
      while (!(g[i] <= p[d] && p[d] < g[i + 1])) ++i;
      lo[d] = i;
      hi[d] = i + 1;
    }
  }
  s.show("point", std::vector<double>(p.begin(), p.end()));
  if (node) s.label("node");
  if (!node || out) nt = true;

  // nearest node, per axis (the distance is separable)
  auto n = f.Nearest(p);
  auto idx = n.indices();
  auto co = n.coords();
  for (size_t d = 0; d < N; ++d) {
    auto &g = m.grid[d];
    CHECK(idx[d] < g.size(), "nearest node: index " << idx[d] << " outside of axis " << d);
    CHECK(co[d] == g[idx[d]], "nearest node: coordinate " << co[d] << " does not match its index on axis " << d);
    long double best = INFINITY;
    for (double c: g) best = std::min(best, std::fabs((long double) p[d] - c));
    long double got = std::fabs((long double) p[d] - g[idx[d]]);
    long double slack = 4 * pbt::EPS * (std::fabs(p[d]) + std::fabs(g[idx[d]]));
    CHECK(got <= best + slack, "node " << g[idx[d]] << " on axis " << d << " is at distance " << got << " of " << p[d] << ", the nearest one is at " << best);
  }
  CHECK(n.val() == m.at(idx), "nearest node: the value is not the one stored at its indices");
  CHECK(f.GetData(p) == n.val(), "data at a point is not the value of its nearest node");

  // surrounding nodes: the 2^N vertices of the enclosing cell in lexicographic order, clamped outside
  auto ns = f.GetSurroundingGridNodes(p);
  CHECK(ns.size() == ((size_t) 1 << N), "number of surrounding nodes is " << ns.size());
  for (size_t v = 0; v < ns.size(); ++v) {
    auto id = ns[v].indices();
    auto cc = ns[v].coords();
    for (size_t d = 0; d < N; ++d) {
      bool up = (v >> (N - 1 - d)) & 1;
      size_t want = up ? hi[d] : lo[d];
      CHECK(id[d] == want, "surrounding node " << v << " of " << p[d] << " on axis " << d << " is " << id[d] << " instead of " << want);
      CHECK(cc[d] == m.grid[d][want], "surrounding node: coordinate on axis " << d);
    }
    CHECK(ns[v].val() == m.at(id), "surrounding node " << v << ": wrong value");
  }
}

template<size_t N, class D>
static void history(pbt::Src &s) {
  typedef RegularGridNearest<D, N> F;
  std::vector<std::pair<std::unique_ptr<F>, Model<N, D>>> pool;
  auto make = [&] {
    auto m = gen_model<N, D>(s);
    std::unique_ptr<F> f(new F());
    for (auto &g: m.grid) { f->AddCoord(g); s.show("axis", g); }
    f->AddVar(to_array(s, m));
    pool.emplace_back(std::move(f), m);
  };
  make();
  bool nt = false;
  int ops = s.chance(60) ? 0 : (int) s.integer(1, 8);
  for (int k = 0; k < ops; ++k) {
    size_t w = s.draw(pool.size());
    switch (s.draw(5)) {
      case 0: s.note("copy"); pool.emplace_back(std::unique_ptr<F>(new F(*pool[w].first)), pool[w].second); break;
      case 1: {
        size_t v = s.draw(pool.size());
        s.note("assign");
        *pool[v].first = *pool[w].first;
        auto tmp = pool[w].second;
        pool[v].second = tmp;
        break;
      }
      case 2:
        s.note("refill");
        for (auto &v: pool[w].second.data) v = gen_val<D>(s);
        pool[w].first->AddVar(to_array(s, pool[w].second));
        break;
      case 3: if (pool.size() < 4) make(); break;
      default: if (pool.size() > 1) pool.erase(pool.begin() + (long) w);
    }
    nt = true;
    s.label("history");
    for (auto &e: pool) verify<N, D>(s, *e.first, e.second, nt);
  }
  for (int k = 0; k < 3; ++k) verify<N, D>(s, *pool[0].first, pool[0].second, nt);
  s.nontrivial(nt);
}
TARGET(dim1_double, 15000) { history<1, double>(s); }
TARGET(dim2_int, 15000) { history<2, int>(s); }
TARGET(dim2_string, 6000) { history<2, std::string>(s); }
TARGET(dim3_double, 8000) { history<3, double>(s); }
TARGET(dim5_double, 1500) { history<5, double>(s); }
// coordinates of another type, one axis short and one long
template<class C>
static void other_coordinates(pbt::Src &s) {
  const bool whole = std::is_integral<C>::value;
  std::vector<std::vector<C>> g(2);
  for (auto &a: g) {
    double unit = whole ? s.pick({1., 3., 7., 1000.}) : 1.;
    for (double v: gen::grid(s, 2, 12, 400)) {
      v *= unit;
      if (std::fabs(v) < 1e9 && (a.empty() || (C) v > a.back())) a.push_back((C) v);
    }
    if (a.empty()) a.push_back((C) 1);
    s.show("axis", a);
  }
  boost::multi_array<int, 2> data(boost::extents[g[0].size()][g[1].size()]);
  for (size_t i = 0; i < g[0].size(); ++i) for (size_t j = 0; j < g[1].size(); ++j) data[i][j] = (int) (i * 1000 + j);
  RegularGridNearest<int, 2, C> f;
  for (auto &a: g) f.AddCoord(a);
  f.AddVar(data);
  s.nontrivial();
  for (int k = 0; k < 5; ++k) {
    std::array<C, 2> p;
    for (int d = 0; d < 2; ++d) {
      std::vector<double> x(g[d].begin(), g[d].end());
      double q = s.chance(20) ? gen::outside(s, x) : gen::inside(s, x);
      p[d] = (C) std::max(-1e9, std::min(1e9, q));
    }
    s.show("point", std::vector<C>(p.begin(), p.end()));
    auto n = f.Nearest(p);
    CHECK(n.val() == data[n.indices()[0]][n.indices()[1]] && f.GetData(p) == n.val(), "value of the nearest node");
    auto ns = f.GetSurroundingGridNodes(p);
    CHECK(ns.size() == 4, "number of surrounding nodes");
    for (int d = 0; d < 2; ++d) {
      auto &a = g[d];
      double best = INFINITY;
      for (C c: a) best = std::min(best, std::fabs((double) p[d] - (double) c));
      CHECK(n.coords()[d] == a[n.indices()[d]], "coordinate of the nearest node");
      double got = std::fabs((double) p[d] - (double) n.coords()[d]), slack = whole ? 0 : 1e-6 * (std::fabs((double) p[d]) + std::fabs((double) n.coords()[d]));
      CHECK(got <= best + slack, "node at " << got << " of the point, the nearest one is at " << best);
      size_t up = std::upper_bound(a.begin(), a.end(), p[d]) - a.begin(), lo = up == 0 ? 0 : up - 1, hi = up == 0 ? 0 : up == a.size() ? up - 1 : up;
      for (size_t v = 0; v < 4; ++v) {
        size_t want = (v >> (1 - d)) & 1 ? hi : lo;
        CHECK(ns[v].indices()[d] == want && ns[v].coords()[d] == a[want], "surrounding node " << v << " on axis " << d);
      }
    }
    for (auto &e: ns) CHECK(e.val() == data[e.indices()[0]][e.indices()[1]], "value of a surrounding node");
  }
}
TARGET(float_coordinates, 5000) { other_coordinates<float>(s); }
TARGET(int_coordinates, 4000) { other_coordinates<int>(s); }
TARGET(dim4_int, 3000) { history<4, int>(s); }

TARGET_FORK(rejection, 1000) {
  RegularGridNearest<int, 2> f;
  auto m = gen_model<2, int>(s);
  int kind = (int) s.draw(5);
  s.show("kind", kind);
  s.nontrivial();
  int ncoord = kind == 1 ? (int) s.draw(2) : 2;
  for (int d = 0; d < ncoord; ++d) f.AddCoord(m.grid[d]);
  auto arr = to_array(s, m);
  if (kind != 1) f.AddVar(arr);
  unsigned idx = 2 + (unsigned) s.draw(5);
  auto r = pbt::in_child([&] {
    switch (kind) {
      case 0: f.AddCoord(m.grid[0]); break;
      case 1: f.AddVar(arr); break;
      case 2: f.GetCoord(idx); break;
      case 3: f.GetCoordMinVal(idx); break;
      default: f.GetCoordMaxVal(idx);
    }
  });
  CHECK(r.kind == pbt::ChildResult::THREW || (r.kind == pbt::ChildResult::EXITED && r.code != 0), "misuse " << kind << " is not refused: " << pbt::str(r));
}
