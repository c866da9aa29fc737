// C06: RegularGridInterpolator, N-dimensional multilinear interpolation.
#include "pbt.h"
#include "gen.h"
#include "MathUtils/RegularGridInterpolator.h"
using namespace mathutils;
PBT_PROPERTY("C06",
             "grids of dimension 1..5 with 1..30 nodes per axis (irregular, non-cubic), data in C and Fortran storage order and shifted index bases, queries at nodes, on faces, "
             "inside and outside cells, histories of adding coordinates/data, replacing data, copying, assigning and rejected calls, against an independent multilinear model "
             "in long double (clamped outside); non-trivial: a query inside a cell of a grid with at least 2 nodes on some axis, or outside, or a history with a copy, a replacement or a rejected call")

template<size_t N, class Real>
struct Model {
  std::vector<std::vector<Real>> grid;
  std::vector<Real> data;  // C order
  bool valid = false;
  size_t count() const { size_t n = 1; for (auto &g: grid) n *= g.size(); return n; }
};

template<size_t N, class Real>
static long double ref(const Model<N, Real> &m, const std::array<Real, N> &p, long double &tol) {
  // sum over the vertices of the enclosing cell, with weights computed independently per axis
  std::array<size_t, N> lo, hi;
  std::array<long double, N> w;
  for (size_t d = 0; d < N; ++d) {
    auto &g = m.grid[d];
    if (p[d] <= g.front()) { lo[d] = hi[d] = 0; w[d] = 0; }
    else if (p[d] >= g.back()) { lo[d] = hi[d] = g.size() - 1; w[d] = 0; }
    else {
      size_t i = 0;
      while (!(g[i] <= p[d] && p[d] < g[i + 1])) ++i;
      lo[d] = i;
      hi[d] = i + 1;
      w[d] = ((long double) p[d] - g[i]) / ((long double) g[i + 1] - g[i]);
    }
  }
  long double acc = 0, mx = 0;
  for (size_t v = 0; v < ((size_t) 1 << N); ++v) {
    long double c = 1;
    size_t idx = 0;
    for (size_t d = 0; d < N; ++d) {
      bool up = (v >> d) & 1;
      c *= up ? w[d] : 1 - w[d];
      idx = idx * m.grid[d].size() + (up ? hi[d] : lo[d]);
    }
    long double f = m.data[idx];
    acc += c * f;
    mx = std::max(mx, std::fabs(f));
  }
  // the normalised coordinate has a relative error of a few eps, with cancellation x-g[c] exact to eps*|x|
  long double cond = 1;
  for (size_t d = 0; d < N; ++d) if (hi[d] != lo[d]) {
      long double h = (long double) m.grid[d][hi[d]] - m.grid[d][lo[d]];
      cond = std::max(cond, std::max(std::fabs((long double) m.grid[d][hi[d]]), std::fabs((long double) m.grid[d][lo[d]])) / h);
    }
  tol = 8 * (N + 2) * std::numeric_limits<Real>::epsilon() * mx * (1 + cond) + 1e-300L;
  return acc;
}

template<size_t N> struct Ex;
template<size_t N, class Real>
static boost::multi_array<Real, N> to_array(pbt::Src &s, const Model<N, Real> &m) {
  std::vector<size_t> ex;
  for (auto &g: m.grid) ex.push_back(g.size());
  bool fortran = s.chance(15);
  if (fortran) s.label("fortran order");
  boost::multi_array<Real, N> a(ex, fortran ? boost::general_storage_order<N>(boost::fortran_storage_order()) : boost::general_storage_order<N>(boost::c_storage_order()));
  std::array<size_t, N> idx;
  for (size_t k = 0; k < m.data.size(); ++k) {
    size_t r = k;
    for (size_t d = N; d-- > 0;) { idx[d] = r % m.grid[d].size(); r /= m.grid[d].size(); }
    a(idx) = m.data[k];
  }
  if (s.chance(10)) { s.label("shifted index base"); a.reindex((long) s.integer(1, 3)); }
  return a;
}

template<size_t N, class Real>
static std::vector<Real> gen_axis(pbt::Src &s) {
  static const int cap[] = {0, 30, 12, 7, 5, 4};
  static const int big[] = {0, 3000, 150, 30, 10, 6};
  auto g = gen::grid(s, s.chance(10) ? 1 : 2, cap[N], big[N]);
  std::vector<Real> r;
  for (double v: g) if (r.empty() || (Real) v > r.back()) r.push_back((Real) v);
  return r;
}
template<size_t N, class Real>
static void gen_data(pbt::Src &s, Model<N, Real> &m) {
  auto d = gen::values(s, (int) m.count());
  m.data.assign(d.begin(), d.end());
}
template<size_t N, class Real>
static std::array<Real, N> gen_point(pbt::Src &s, const Model<N, Real> &m, bool &out) {
  std::array<Real, N> p;
  out = false;
  for (size_t d = 0; d < N; ++d) {
    std::vector<double> g(m.grid[d].begin(), m.grid[d].end());
    if (s.chance(15)) p[d] = (Real) gen::outside(s, g);
    else p[d] = (Real) gen::inside(s, g);
    if (p[d] < m.grid[d].front() || p[d] > m.grid[d].back()) out = true;
  }
  return p;
}
template<size_t N, class Real>
static std::string showp(const std::array<Real, N> &p) { return pbt::str(std::vector<Real>(p.begin(), p.end())); }

template<size_t N, class Real>
static void check_values(pbt::Src &s, const RegularGridInterpolator<Real, N> &f, const Model<N, Real> &m, int q, bool &nt) {
  CHECK(f.GetDimension() == N, "dimension");
  CHECK(f.IsValid() == m.valid, "validity flag is " << f.IsValid() << ", expected " << m.valid);
  for (size_t d = 0; d < m.grid.size(); ++d) CHECK(f.GetCoord((unsigned) d) == m.grid[d], "coordinates of axis " << d);
  for (size_t d = 0; d < m.grid.size(); ++d) CHECK(f.GetCoordMinVal((unsigned) d) == m.grid[d].front() && f.GetCoordMaxVal((unsigned) d) == m.grid[d].back(), "limits of axis " << d << " are [" << f.GetCoordMinVal((unsigned) d) << ", " << f.GetCoordMaxVal((unsigned) d) << "]");
  if (!m.valid) return;
  for (int k = 0; k < q; ++k) {
    bool out;
    auto p = gen_point(s, m, out);
    s.label(out ? "outside" : "inside");
    long double tol, want = ref(m, p, tol);
    Real got = f.Interp(p);
    pbt::near(got, want, tol, "value at " + showp<N, Real>(p));
    nt = true;
    bool threw = false;
    Real got2 = 0;
    try { got2 = f.Interp(p, true); } catch (const std::exception &) { threw = true; }
    CHECK(threw == out, "bound-checked interpolation at " << (showp<N, Real>(p)) << (out ? " outside the grid is accepted" : " inside the grid is refused"));
    if (!threw) CHECK(got2 == got, "bound check changes the value");
    // a node
    std::array<size_t, N> idx;
    std::array<Real, N> c;
    size_t lin = 0;
    for (size_t d = 0; d < N; ++d) {
      idx[d] = s.draw(m.grid[d].size());
      c[d] = m.grid[d][idx[d]];
      lin = lin * m.grid[d].size() + idx[d];
    }
    CHECK(f.EvalAtIndice(idx) == m.data[lin], "value stored at a node");
    ref(m, c, tol);
    pbt::near(f.Interp(c), m.data[lin], tol, "interpolation at the node " + showp<N, Real>(c));
  }
}

template<size_t N, class Real>
static void simple(pbt::Src &s) {
  Model<N, Real> m;
  for (size_t d = 0; d < N; ++d) m.grid.push_back(gen_axis<N, Real>(s));
  gen_data(s, m);
  m.valid = true;
  s.show("dim", N);
  for (auto &g: m.grid) s.show("axis", g);
  s.show("data", m.data);
  RegularGridInterpolator<Real, N> f;
  for (auto &g: m.grid) f.AddCoord(g);
  f.AddVar(to_array(s, m));
  bool nt = false;
  check_values<N, Real>(s, f, m, 4, nt);
  s.nontrivial(m.count() > 1);
}
TARGET(dim1, 12000) { simple<1, double>(s); }
TARGET(dim2, 12000) { simple<2, double>(s); }
TARGET(dim3, 12000) { simple<3, double>(s); }
TARGET(dim4, 6000) { simple<4, double>(s); }
TARGET(dim5, 2500) { simple<5, double>(s); }
TARGET(dim2_float, 6000) { simple<2, float>(s); }

// histories with copies
template<size_t N>
static void history(pbt::Src &s) {
  typedef RegularGridInterpolator<double, N> I;
  typedef Model<N, double> M;
  std::vector<std::pair<std::unique_ptr<I>, M>> pool;
  pool.emplace_back(std::unique_ptr<I>(new I()), M());
  int ops = s.size(3, 25);
  bool nt = false, disturbed = false;
  for (int k = 0; k < ops; ++k) {
    size_t w = s.draw(pool.size());
    I &f = *pool[w].first;
    M &m = pool[w].second;
    switch (s.draw(10)) {
      case 0:
      case 1:
      case 2: {
        if (m.grid.size() == N) goto data;
        auto g = gen_axis<N, double>(s);
        s.desc << "AddCoord(" << w << "," << pbt::str(g) << ") ";
        f.AddCoord(g);
        m.grid.push_back(g);
        break;
      }
      case 3: {  // rejected coordinate
        if (m.grid.size() == N) break;
        auto g = gen_axis<N, double>(s);
        if (g.size() < 2) g.push_back(g[0] + 1);
        size_t i = 1 + s.draw(g.size() - 1);
        g[i] = s.boolean() ? g[i - 1] : g[i - 1] - 1;
        s.desc << "AddCoord(" << w << ", not increasing) ";
        bool threw = false;
        try { f.AddCoord(g); } catch (const std::exception &) { threw = true; }
        CHECK(threw, "a coordinate that is not strictly increasing is accepted: " << pbt::str(g));
        disturbed = true;
        s.label("rejected coordinate");
        break;
      }
      case 4:
      case 5: {
        data:
        while (m.grid.size() < N) {
          auto g = gen_axis<N, double>(s);
          s.desc << "AddCoord(" << w << "," << pbt::str(g) << ") ";
          f.AddCoord(g);
          m.grid.push_back(g);
        }
        if (m.valid) { disturbed = true; s.label("data replaced"); }
        if (m.valid && s.chance(40)) gen::perturb(s, m.data);
        else gen_data(s, m);
        s.desc << "AddVar(" << w << "," << pbt::str(m.data) << ") ";
        f.AddVar(to_array(s, m));
        m.valid = true;
        break;
      }
      case 6: {  // copy construction (sometimes through a growing container), also of an unfinished interpolator
        if (pool.size() > 4) break;
        s.desc << "copy(" << w << ") ";
        if (s.chance(30)) {
          std::vector<I> v;
          for (int i = 0; i < 3; ++i) v.push_back(f);
          pool.emplace_back(std::unique_ptr<I>(new I(v[s.draw(3)])), m);
        } else pool.emplace_back(std::unique_ptr<I>(new I(f)), m);
        disturbed = true;
        s.label(pool.back().second.valid ? "copied" : "unfinished copied");
        break;
      }
      case 7: {  // assignment, including self assignment
        size_t v = s.draw(pool.size());
        s.desc << "assign(" << v << "=" << w << ") ";
        *pool[v].first = f;
        M tmp = m;
        pool[v].second = tmp;
        disturbed = true;
        s.label(v == w ? "self assigned" : "assigned");
        break;
      }
      case 8: {  // destroy one of several
        if (pool.size() < 2) break;
        s.desc << "destroy(" << w << ") ";
        pool.erase(pool.begin() + (long) w);
        break;
      }
      default: {  // data of the wrong size
        if (!m.valid) break;
        M bad = m;
        size_t ax = s.draw(N);
        size_t ax2 = s.draw(N);
        if (bad.grid[ax].size() != bad.grid[ax2].size() && s.boolean()) { std::swap(bad.grid[ax], bad.grid[ax2]); s.label("data of a transposed shape"); }
        else if (s.boolean()) bad.grid[ax].push_back(bad.grid[ax].back() + 1);
        else if (bad.grid[ax].size() > 1) bad.grid[ax].pop_back();
        else bad.grid[ax].push_back(bad.grid[ax].back() + 1);
        gen_data(s, bad);
        s.desc << "AddVar(" << w << ", wrong size) ";
        bool threw = false;
        try { f.AddVar(to_array(s, bad)); } catch (const std::exception &) { threw = true; }
        CHECK(threw, "data whose size does not match the grid is accepted");
        disturbed = true;
        s.label("rejected data");
      }
    }
    for (auto &e: pool) {
      bool q = false;
      check_values<N, double>(s, *e.first, e.second, 1, q);
      if (q && disturbed) nt = true;
    }
  }
  s.nontrivial(nt);
}
TARGET(history1, 5000) { history<1>(s); }
TARGET(history2, 5000) { history<2>(s); }
TARGET(history3, 2500) { history<3>(s); }

TARGET_FORK(rejection, 1200) {
  RegularGridInterpolator<double, 2> f;
  Model<2, double> m;
  for (int d = 0; d < 2; ++d) m.grid.push_back(gen_axis<2, double>(s));
  gen_data(s, m);
  int kind = (int) s.draw(5);
  s.show("kind", kind);
  s.nontrivial();
  int ncoord = kind == 1 ? (int) s.draw(2) : 2;
  for (int d = 0; d < ncoord; ++d) f.AddCoord(m.grid[d]);
  auto arr = to_array(s, m);
  if (kind != 1) f.AddVar(arr);
  unsigned idx = 2 + (unsigned) s.draw(5);
  auto r = pbt::in_child([&] {
    switch (kind) {
      case 0: f.AddCoord(m.grid[0]); break;
      case 1: f.AddVar(arr); break;
      case 2: f.GetCoord(idx); break;
      case 3: f.GetCoordMinVal(idx); break;
      default: f.GetCoordMaxVal(idx);
    }
  });
  CHECK(r.kind == pbt::ChildResult::THREW || (r.kind == pbt::ChildResult::EXITED && r.code != 0), "misuse " << kind << " is not refused: " << pbt::str(r));
}
