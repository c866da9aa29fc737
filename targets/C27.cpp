// C27: direct use of the n-dimensional multilinear and simplicial interpolators and of their C interface.
// scale: 12
// parts: 2
#include "pbt.h"
#include "gen.h"
#include "MathUtils/thirdparty/linterp.h"
#ifndef PBT_PART
#define PBT_PART 1
#endif
#if PBT_PART == 1
PBT_PROPERTY("C27",
             "regular and irregular grids of 1 to 5 dimensions with 1 to 7 (one of them up to 600) nodes per dimension, random, affine and integer data, in double and float; points at nodes, next to them, with equal coordinates in the cell, inside, on "
             "the border and outside of the grid, alone and in batches; the multilinear and the simplicial interpolants recomputed from their definitions in long double, the sources overwritten and freed after the construction, data of the wrong "
             "size, left and right values at the nodes; non-trivial: a point strictly inside of a cell or outside of the grid in at least one dimension")
#endif
typedef long double LD;

template<class T>
struct Case {
  int N;
  std::vector<std::vector<T>> g;
  std::vector<int> len;
  std::vector<T> f;
  std::vector<std::vector<T>> x;  // [dim][point]
  std::vector<const T *> gp, xp;
  int n;
};
template<class T> static T nextT(T a, T b) { return std::nextafter(a, b); }
template<class T>
static void make(pbt::Src &s, int N, int mult, Case<T> &c, bool affine = false) {
  c.N = N;
  c.g.resize(N);
  size_t total = 1;
  int large = s.chance(2) ? (int) s.draw(N) : -1;  // many nodes in one direction
  for (int d = 0; d < N; ++d) {
    auto g = d == large ? gen::grid(s, 40, 600) : gen::grid(s, s.chance(15) ? 1 : 2, large >= 0 ? 3 : N == 1 ? 12 : N == 5 ? 3 : N == 4 ? 4 : 7);
    for (double v: g) if (c.g[d].empty() || (T) v > c.g[d].back()) c.g[d].push_back((T) v);
    c.len.push_back((int) c.g[d].size());
    total *= c.len[d] * mult;
    s.show("grid", c.g[d]);
  }
  for (double v: gen::values(s, (int) total)) c.f.push_back((T) v);
  c.n = (int) s.integer(1, 6);
  c.x.assign(N, std::vector<T>(c.n));
  for (int i = 0; i < c.n; ++i) {
    bool equal = s.chance(20);
    double frac = s.uniform(0, 1);
    for (int d = 0; d < N; ++d) {
      const auto &g = c.g[d];
      int k = (int) s.draw(g.size());
      T v;
      if (equal && k + 1 < (int) g.size()) v = g[k] + (T) frac * (g[k + 1] - g[k]);  // ties between the dimensions
      else
        switch (s.draw(8)) {
          case 0: v = g[k]; break;
          case 1: v = nextT(g[k], (T) INFINITY); break;
          case 2: v = nextT(g[k], (T) -INFINITY); break;
          case 3: v = s.boolean() ? g.back() + (T) s.positive(-3, 3) : g.front() - (T) s.positive(-3, 3); s.nontrivial(); break;
          default: if (k + 1 < (int) g.size()) { v = g[k] + (T) s.uniform(0, 1) * (g[k + 1] - g[k]); s.nontrivial(); } else v = g[k];
        }
      c.x[d][i] = v;
    }
  }
  for (int d = 0; d < N; ++d) { c.gp.push_back(c.g[d].data()); c.xp.push_back(c.x[d].data()); s.show("x", c.x[d]); }
  s.show("f", c.f);
}
// position in a dimension: lower index, weight of the upper one; indices into 0 .. len-1
template<class T>
static void locate(const std::vector<T> &g, T x, int &k, LD &t) {
  int n = (int) g.size();
  if (!(x > g[0])) { k = 0; t = 0; return; }
  if (x >= g[n - 1]) { k = n - 1; t = 0; return; }
  k = 0;
  while (x >= g[k + 1]) ++k;
  t = ((LD) x - g[k]) / ((LD) g[k + 1] - g[k]);
}
template<class T>
static void reference(const Case<T> &c, int i, LD &ml, LD &sx, LD &scale) {
  int N = c.N;
  std::vector<int> k(N);
  std::vector<LD> t(N);
  for (int d = 0; d < N; ++d) locate(c.g[d], c.x[d][i], k[d], t[d]);
  auto at = [&](int mask) {
    size_t o = 0;
    for (int d = 0; d < N; ++d) o = o * c.len[d] + std::min(c.len[d] - 1, k[d] + ((mask >> d) & 1));
    return (LD) c.f[o];
  };
  ml = 0;
  scale = 0;
  for (int m = 0; m < 1 << N; ++m) {
    LD w = 1;
    for (int d = 0; d < N; ++d) w *= (m >> d) & 1 ? t[d] : 1 - t[d];
    ml += w * at(m);
    scale = std::max(scale, std::fabs(at(m)));
  }
  // the simplex: from the lower corner, the dimensions by decreasing weight
  std::vector<int> o(N);
  for (int d = 0; d < N; ++d) o[d] = d;
  std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return t[a] > t[b]; });
  sx = 0;
  int mask = 0;
  LD prev = 1;
  for (int j = 0; j <= N; ++j) {
    LD next = j < N ? t[o[j]] : 0;
    sx += (prev - next) * at(mask);
    if (j < N) mask |= 1 << o[j];
    prev = next;
  }
}
// the same data in memory that is overwritten and freed once the interpolator is made
template<class T> struct Loan {
  std::vector<std::vector<T>> g;
  std::vector<T> f;
  std::vector<T *> gp;
  std::vector<int> len;
  explicit Loan(const Case<T> &c) : g(c.g), f(c.f), len(c.len) { for (auto &v: g) gp.push_back(v.data()); }
  void spoil() { for (auto &v: g) { for (auto &a: v) a = (T) -777; v.clear(); v.shrink_to_fit(); } for (auto &a: f) a = (T) 1e9; f.clear(); f.shrink_to_fit(); }
};
template<int N, class T, bool Copy>
static void direct(pbt::Src &s) {
  Case<T> c;
  make(s, N, 1, c);
  const LD eps = std::numeric_limits<T>::epsilon();
  Loan<T> L(c);
  InterpMultilinear<N, T, Copy> M(L.gp.begin(), L.len.begin(), L.f.data(), L.f.data() + L.f.size());
  InterpSimplex<N, T, Copy> S(L.gp.begin(), L.len.begin(), L.f.data(), L.f.data() + L.f.size());
  if (Copy) L.spoil();
  std::vector<T> rm(c.n + 1, (T) 555), rs(c.n + 1, (T) 555);
  M.interp_vec(c.n, c.xp.begin(), c.xp.end(), rm.begin());
  S.interp_vec(c.n, c.xp.begin(), c.xp.end(), rs.begin());
  CHECK(rm[c.n] == (T) 555 && rs[c.n] == (T) 555, "more values than points were written");
  for (int i = 0; i < c.n; ++i) {
    LD ml, sx, scale;
    reference(c, i, ml, sx, scale);
    std::array<T, N> p;
    for (int d = 0; d < N; ++d) p[d] = c.x[d][i];
    pbt::near(rm[i], ml, 16 * (N + 1) * eps * scale, "multilinear interpolation of point " + std::to_string(i));
    pbt::near(rs[i], sx, 16 * (N + 1) * eps * scale, "simplicial interpolation of point " + std::to_string(i));
    CHECK(M.interp(p.begin()) == rm[i], "multilinear interpolation of point " << i << " alone " << M.interp(p.begin()) << ", in a batch " << rm[i]);
    CHECK(S.interp(p.begin()) == rs[i], "simplicial interpolation of point " << i << " alone " << S.interp(p.begin()) << ", in a batch " << rs[i]);
  }
}
#if PBT_PART == 1
TARGET(one, 12000) { direct<1, double, true>(s); }
TARGET(two, 12000) { direct<2, double, true>(s); }
TARGET(three, 10000) { direct<3, double, true>(s); }
TARGET(four, 5000) { direct<4, double, true>(s); }
TARGET(five, 2500) { direct<5, double, true>(s); }
TARGET(wrong_size, 3000) {  // data that do not fit the grids are refused
  Case<double> c;
  make(s, 2, 1, c);
  size_t n = c.f.size();
  long delta = s.boolean() ? s.integer(1, 4) : -(long) s.integer(1, (long) std::min<size_t>(n, 4));
  c.f.resize(n + delta);
  s.show("given", c.f.size());
  s.nontrivial();
  bool thrown = false;
  try { NDInterpolator_2_ML m(c.gp.begin(), c.len.begin(), c.f.data(), c.f.data() + c.f.size()); } catch (const std::invalid_argument &) { thrown = true; }
  CHECK(thrown, "multilinear interpolation of " << c.f.size() << " values on " << n << " nodes was accepted");
  thrown = false;
  try { NDInterpolator_2_S m(c.gp.begin(), c.len.begin(), c.f.data(), c.f.data() + c.f.size()); } catch (const std::invalid_argument &) { thrown = true; }
  CHECK(thrown, "simplicial interpolation of " << c.f.size() << " values on " << n << " nodes was accepted");
}
TARGET(affine, 12000) {  // both interpolants reproduce affine functions, and take the same values at the nodes
  Case<double> c;
  make(s, 3, 1, c);
  double a[4];
  for (double &v: a) v = s.scaled(-2, 2);
  size_t o = 0;
  LD mag = 0;
  for (double x: c.g[0]) for (double y: c.g[1]) for (double z: c.g[2]) { c.f[o++] = a[0] + a[1] * x + a[2] * y + a[3] * z; mag = std::max(mag, (LD) std::fabs(a[0]) + std::fabs(a[1] * x) + std::fabs(a[2] * y) + std::fabs(a[3] * z)); }
  NDInterpolator_3_ML m(c.gp.begin(), c.len.begin(), c.f.data(), c.f.data() + o);
  NDInterpolator_3_S t(c.gp.begin(), c.len.begin(), c.f.data(), c.f.data() + o);
  for (int i = 0; i < c.n; ++i) {
    double p[3];
    LD e = a[0];
    for (int d = 0; d < 3; ++d) { p[d] = c.x[d][i]; e += (LD) a[d + 1] * std::min(c.g[d].back(), std::max(c.g[d].front(), p[d])); }
    pbt::near(m.interp(p), e, 64 * pbt::EPS * mag, "multilinear interpolation of an affine function");
    pbt::near(t.interp(p), e, 64 * pbt::EPS * mag, "simplicial interpolation of an affine function");
  }
}
#else
TARGET(two_float, 8000) { direct<2, float, true>(s); }
TARGET(three_by_reference, 6000) { direct<3, double, false>(s); }
TARGET(two_by_reference, 6000) { direct<2, double, false>(s); }
TARGET(c_interface, 12000) {
  int N = (int) s.integer(1, 3);
  s.show("N", N);
  Case<double> c;
  make(s, N, 1, c);
  Case<double> k = c;
  for (int d = 0; d < N; ++d) { k.gp[d] = k.g[d].data(); k.xp[d] = k.x[d].data(); }
  std::vector<double> r(c.n + 1, 555.);
  (N == 1 ? linterp_simplex_1 : N == 2 ? linterp_simplex_2 : linterp_simplex_3)((double **) k.gp.data(), k.len.data(), k.f.data(), k.n, (double **) k.xp.data(), r.data());
  CHECK(k.g == c.g && k.f == c.f && k.x == c.x && k.len == c.len, "an argument was modified");
  CHECK(r[c.n] == 555., "more values than points were written");
  for (int i = 0; i < c.n; ++i) {
    LD ml, sx, scale;
    reference(c, i, ml, sx, scale);
    pbt::near(r[i], sx, 64 * pbt::EPS * scale, "linterp_simplex_" + std::to_string(N) + ", point " + std::to_string(i));
  }
}
// Each node has a left and a right value in each dimension: a cell interpolates the right values of its lower node and
// the left ones of its upper node.
template<int N>
static void discontinuous(pbt::Src &s) {
  Case<double> c;
  make(s, N, 2, c);
  InterpMultilinear<N, double, true, false> M(c.gp.begin(), c.len.begin(), c.f.data(), c.f.data() + c.f.size());
  InterpSimplex<N, double, true, false> S(c.gp.begin(), c.len.begin(), c.f.data(), c.f.data() + c.f.size());
  for (int i = 0; i < c.n; ++i) {
    std::array<double, N> p;
    int lo[N], hi[N];
    LD t[N];
    for (int d = 0; d < N; ++d) {
      double x = p[d] = c.x[d][i];
      int n = c.len[d], k;
      if (x < c.g[d][0]) { lo[d] = hi[d] = 0; t[d] = 0; }
      else if (x >= c.g[d][n - 1]) { lo[d] = hi[d] = 2 * n - 1; t[d] = 0; }
      else { locate(c.g[d], x, k, t[d]); lo[d] = 2 * k + 1; hi[d] = 2 * k + 2; }
    }
    auto at = [&](int mask) { size_t o = 0; for (int d = 0; d < N; ++d) o = o * 2 * c.len[d] + ((mask >> d) & 1 ? hi[d] : lo[d]); return (LD) c.f[o]; };
    LD ml = 0, scale = 0;
    for (int m = 0; m < 1 << N; ++m) {
      LD w = 1;
      for (int d = 0; d < N; ++d) w *= (m >> d) & 1 ? t[d] : 1 - t[d];
      ml += w * at(m);
      scale = std::max(scale, std::fabs(at(m)));
    }
    LD sx = N == 1 ? ml : t[0] >= t[N - 1] ? (1 - t[0]) * at(0) + (t[0] - t[N - 1]) * at(1) + t[N - 1] * at(3) : (1 - t[N - 1]) * at(0) + (t[N - 1] - t[0]) * at(2) + t[0] * at(3);
    pbt::near(M.interp(p.begin()), ml, 64 * pbt::EPS * scale, "multilinear interpolation of discontinuous data");
    pbt::near(S.interp(p.begin()), sx, 64 * pbt::EPS * scale, "simplicial interpolation of discontinuous data");
  }
}
TARGET(discontinuous_one, 6000) { discontinuous<1>(s); }
TARGET(discontinuous_two, 6000) { discontinuous<2>(s); }
struct Count {  // a reference count given by the user
  std::shared_ptr<int> p;
};
TARGET(reference_counts, 2000) {
  Case<double> c;
  make(s, 2, 1, c);
  Count f{std::make_shared<int>(0)}, g[2] = {{std::make_shared<int>(0)}, {std::make_shared<int>(0)}};
  {
    InterpMultilinear<2, double, false, true, Count, Count> M(c.gp.begin(), c.len.begin(), c.f.data(), c.f.data() + c.f.size(), f, g);
    InterpSimplex<2, double, false, true, Count, Count> S(c.gp.begin(), c.len.begin(), c.f.data(), c.f.data() + c.f.size(), f, g);
    CHECK(f.p.use_count() == 3 && g[0].p.use_count() == 3 && g[1].p.use_count() == 3, "the reference counts are not held");
    for (int i = 0; i < c.n; ++i) {
      LD ml, sx, scale;
      reference(c, i, ml, sx, scale);
      double p[2] = {c.x[0][i], c.x[1][i]};
      pbt::near(M.interp(p), ml, 64 * pbt::EPS * scale, "multilinear interpolation");
      pbt::near(S.interp(p), sx, 64 * pbt::EPS * scale, "simplicial interpolation");
    }
  }
  CHECK(f.p.use_count() == 1 && g[0].p.use_count() == 1 && g[1].p.use_count() == 1, "the reference counts are not released");
}
#endif
