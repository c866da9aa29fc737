// Reference model of the tensor Chebyshev and power series on closed and half-open domains, in long double.
#ifndef VERIF_SERIES_H
#define VERIF_SERIES_H
#include "pbt.h"
namespace ser {
typedef long double LD;

struct Axis {
  bool open = false;
  double a = -1, b = 1;
  LD unit(LD x) const { return open ? 1 - 2 * ((LD) a / x) : (2 * x - (LD) a - (LD) b) / ((LD) b - a); }
  LD seg(LD u) const { return open ? 2 * (LD) a / (1 - u) : ((LD) b - a) / 2 * u + ((LD) b + a) / 2; }
  LD d(LD x) const { return open ? 2 * (LD) a / (x * x) : 2 / ((LD) b - a); }
  // amplification of the rounding of x in the unit coordinate
  LD kappa() const { return open ? 4 : 4 + 4 * (std::fabs(a) + std::fabs(b)) / (b - a); }
};
inline Axis axis(pbt::Src &s, bool open, const char *name) {
  Axis x;
  x.open = open;
  if (open) {
    x.a = s.chance(40) ? (double) s.integer(1, 9) : s.chance(80) ? s.positive(-2, 2) : s.positive(-10, 10);
    x.b = 0;
    s.desc << name << " in [" << x.a << ", +inf); ";
  } else {
    x.a = s.chance(50) ? (double) s.integer(-9, 9) : s.uniform(-20, 20);
    double w = s.chance(50) ? (double) s.integer(1, 9) : s.positive(-1, 2);
    if (s.chance(15)) { double u = s.positive(-10, 10); x.a *= u; w *= u; }  // any unit
    x.b = x.a + w;
    s.desc << name << " in [" << x.a << ", " << x.b << "]; ";
  }
  return x;
}
// A domain that contains the given one.
inline Axis larger(pbt::Src &s, const Axis &x) {
  Axis y = x;
  if (x.open) y.a = x.a * s.uniform(0.3, 1);
  else { y.a -= (x.b - x.a) * s.uniform(0, 1); y.b += (x.b - x.a) * s.uniform(0, 1); }
  return y;
}
inline double point(pbt::Src &s, const Axis &x) {
  if (x.open) return s.chance(15) ? x.a : s.chance(80) ? x.a * std::pow(10., 3 * s.unit()) : s.chance(50) ? x.a * (1 + s.positive(-15, 0)) : x.a * s.positive(3, 14);
  if (s.chance(15)) { double p = (s.boolean() ? x.a : s.boolean() ? x.b : 0.5 * (x.a + x.b)) + s.sign() * (x.b - x.a) * s.positive(-14, -1); return std::min(x.b, std::max(x.a, p)); }
  return s.chance(20) ? s.pick({x.a, x.b, 0.5 * (x.a + x.b)}) : s.uniform(x.a, x.b);
}

// coefficients c(i,j,k), stored flat
struct Tensor {
  int nx = 1, ny = 1, nz = 1;
  std::vector<LD> v;
  Tensor() {}
  Tensor(int x, int y, int z) : nx(x), ny(y), nz(z), v((size_t) x * y * z, 0.L) {}
  LD &at(int i, int j, int k) { return v[((size_t) i * ny + j) * nz + k]; }
  LD at(int i, int j, int k) const { return v[((size_t) i * ny + j) * nz + k]; }
  LD mag() const { LD m = 0; for (LD x: v) m += std::fabs(x); return m; }
};
inline std::vector<LD> cheb(int n, LD u) {  // T_0..T_{n-1}
  std::vector<LD> t(n);
  for (int i = 0; i < n; ++i) t[i] = i == 0 ? 1 : i == 1 ? u : 2 * u * t[i - 1] - t[i - 2];
  return t;
}
inline std::vector<LD> dcheb(int n, LD u) {
  std::vector<LD> t = cheb(n, u), d(n);
  for (int i = 0; i < n; ++i) d[i] = i == 0 ? 0 : i == 1 ? 1 : 2 * t[i - 1] + 2 * u * d[i - 1] - d[i - 2];
  return d;
}
inline std::vector<LD> pw(int n, LD u) { std::vector<LD> t(n); for (int i = 0; i < n; ++i) t[i] = i ? t[i - 1] * u : 1; return t; }
inline std::vector<LD> dpw(int n, LD u) { std::vector<LD> t = pw(n, u), d(n); for (int i = 0; i < n; ++i) d[i] = i ? i * t[i - 1] : 0; return d; }
inline LD dot(const Tensor &c, const std::vector<LD> &x, const std::vector<LD> &y, const std::vector<LD> &z) {
  LD r = 0;
  for (int i = 0; i < c.nx; ++i) for (int j = 0; j < c.ny; ++j) for (int k = 0; k < c.nz; ++k) r += c.at(i, j, k) * x[i] * y[j] * z[k];
  return r;
}
inline LD absdot(const Tensor &c, const std::vector<LD> &x, const std::vector<LD> &y, const std::vector<LD> &z) {
  LD r = 0;
  for (int i = 0; i < c.nx; ++i) for (int j = 0; j < c.ny; ++j) for (int k = 0; k < c.nz; ++k) r += std::fabs(c.at(i, j, k) * x[i] * y[j] * z[k]);
  return r;
}
inline Tensor random(pbt::Src &s, int nx, int ny, int nz) {
  Tensor c(nx, ny, nz);
  int kind = (int) s.draw(3);
  for (auto &x: c.v) x = kind == 0 ? (LD) s.integer(-9, 9) : kind == 1 ? (LD) s.uniform(-5, 5) : (s.chance(30) ? (LD) s.scaled(-2, 2) : 0.L);
  if (s.chance(25)) { LD u = s.chance(12) ? (LD) s.positive(-200, 100) : (LD) s.positive(-14, 12); for (auto &x: c.v) x = (LD) (double) (x * u); }  // any unit
  return c;
}
// Chebyshev coefficients of the interpolant of sum c T at the Chebyshev nodes: T_m folds onto T_i
// (aliasing of the discrete cosine transform): with N nodes, T_m at the nodes is +-T_i.
inline void fold(int m, int N, int &i, int &sign) {
  sign = 1;
  m %= 4 * N;
  if (m > 2 * N) m = 4 * N - m;     // T_{4N-m} = T_m at the nodes
  if (m > N) { m = 2 * N - m; sign = -1; }  // T_{2N-m} = -T_m
  i = m;
  if (m == N) sign = 0;             // T_N vanishes at the nodes
}
inline Tensor interpolant(const Tensor &c, int nx, int ny, int nz) {
  Tensor a(nx, ny, nz);
  for (int i = 0; i < c.nx; ++i) for (int j = 0; j < c.ny; ++j) for (int k = 0; k < c.nz; ++k) {
    int p, q, r, sp, sq, sr;
    fold(i, nx, p, sp); fold(j, ny, q, sq); fold(k, nz, r, sr);
    if (sp * sq * sr != 0) a.at(p, q, r) += sp * sq * sr * c.at(i, j, k);
  }
  return a;
}
}  // namespace ser
#endif
