// Generators shared by several targets.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include "pbt.h"
#include <memory>

namespace gen {

// Strictly increasing abscissae: unit, uniform or irregular steps, or steps of very different sizes
// (ten decades); the tolerances of the oracles account for the resulting conditioning.
inline std::vector<double> grid(pbt::Src &s, int nmin, int nmax, int big = 0) {
  int n = s.size(nmin, nmax, big);
  double scale = s.chance(30) ? s.positive(-4, 4) : s.chance(6) ? s.positive(-12, 12) : 1.;
  std::vector<double> x(n);
  int kind = s.chance(12) ? 4 : s.chance(8) ? 5 : s.chance(8) ? 6 : s.chance(8) ? 7 : (int) s.draw(4);
  // 6: runs of fine and of coarse steps; 7: constant steps but for some nodes, the ends (and the middle) left in place
  int left = 0;
  double x0 = s.chance(60) ? (double) s.integer(-20, 20) : s.uniform(-100, 100);
  if (s.chance(15) || (kind == 4 && s.chance(50))) x0 = 0;
  double cur = x0;
  double h = kind == 1 ? s.uniform(0.1, 2.) : 1.;
  for (int i = 0; i < n; ++i) {
    x[i] = cur * scale;
    switch (kind) {
      case 0: cur += 1; break;                         // unit steps
      case 1: cur += h; break;                         // uniform steps
      case 2: cur += s.uniform(0.05, 3.); break;       // irregular
      case 4: { double e = s.positive(-8, 2); cur = std::max(cur + e, cur + 1e-13 * (1 + std::fabs(cur))); break; }
      case 5: cur += 1 + s.uniform(-0.03, 0.03); break; // nearly uniform
      case 6: {
        if (left == 0) { left = (int) s.integer(1, std::max(2, n / 3)); h = s.chance(40) ? 1. : s.positive(-4, 3); }
        --left;
        cur = std::max(cur + h, cur + 1e-13 * (1 + std::fabs(cur)));
        break;
      }
      case 7: cur += 1; break;
      default: cur += (double) s.integer(1, 9) * 0.25; // irregular, exactly representable
    }
  }
  if (kind == 7 && n > 4) {
    for (int k = (int) s.integer(1, 3); k > 0; --k) {
      int i = (int) s.integer(2, n - 3);
      double f = s.boolean() ? 0.5 : s.uniform(0.05, 0.95);
      double v = s.boolean() ? x[i] + f * (x[i + 1] - x[i]) : x[i] - f * (x[i] - x[i - 1]);
      if (v > x[i - 1] && v < x[i + 1]) x[i] = v;
    }
  }
  for (int i = 1; i < n; ++i) assert(x[i] > x[i - 1]);
  return x;
}

inline std::vector<double> values(pbt::Src &s, int n) {
  std::vector<double> y(n);
  int kind = (int) s.draw(5);
  double c = s.scaled(-3, 3);
  double unit = s.chance(15) ? s.positive(-14, 14) : 1.;
  for (int i = 0; i < n; ++i) {
    switch (kind) {
      case 0: y[i] = (double) s.integer(-9, 9); break;
      case 1: y[i] = s.scaled(-3, 3); break;
      case 2: y[i] = s.uniform(-10, 10); break;
      case 3: y[i] = s.chance(20) ? s.uniform(-5, 5) : c; break;  // mostly constant
      default: y[i] = c * (i + 1); break;                         // monotone
    }
    y[i] *= unit;
  }
  return y;
}

// Data that differ from the given ones in a few places only.
template<class T> void perturb(pbt::Src &s, std::vector<T> &y) {
  if (y.empty()) return;
  switch (s.draw(4)) {
    case 0: case 1:
      for (int k = (int) s.integer(1, 3); k > 0; --k) y[s.draw(y.size())] += (T) (double) s.integer(1, 9);
      break;
    case 2: {
      size_t i = s.draw(y.size()), j = s.draw(y.size());
      if (y[i] == y[j]) y[i] += (T) 1.;
      else std::swap(y[i], y[j]);
      break;
    }
    default: for (auto &v: y) v *= (T) -0.5;
  }
}
// Abscissae of the same number that differ by one node, by their origin or by their scale; still strictly increasing.
inline void perturb_grid(pbt::Src &s, std::vector<double> &x) {
  size_t n = x.size();
  std::vector<double> o = x;
  if (n > 2 && s.chance(60)) {
    size_t i = 1 + s.draw(n - 2);
    x[i] = 0.5 * (x[i] + (s.boolean() ? x[i - 1] : x[i + 1]));
  } else if (n > 1 && s.boolean()) x[n - 1] += x[n - 1] - x[n - 2];
  else for (auto &v: x) v += 1;
  for (size_t i = 1; i < n; ++i) if (!(x[i] > x[i - 1])) { x = o; return; }
}

// A query in [x0, xn-1]: nodes, neighbours of nodes, mid points, anything.
inline double remember(pbt::Src &s, double v) {
  if (s.memo.size() >= 6) s.memo.erase(s.memo.begin());
  s.memo.push_back(v);
  return v;
}
inline double inside(pbt::Src &s, const std::vector<double> &x) {
  size_t n = x.size();
  if (!s.memo.empty() && s.chance(15)) {
    double v = s.memo[s.draw(s.memo.size())];
    if (v >= x.front() && v <= x.back()) return v;
  }
  size_t i = s.draw(n);
  double v;
  switch (s.draw(7)) {
    case 0: v = x[i]; break;
    case 1: v = std::nextafter(x[i], INFINITY); break;
    case 2: v = std::nextafter(x[i], -INFINITY); break;
    case 3:  // the middle of a cell, or close to it; close to a node
      v = i + 1 < n ? 0.5 * (x[i] + x[i + 1]) : x[n - 1];
      if (i + 1 < n && s.boolean()) v = (s.boolean() ? v : s.boolean() ? x[i] : x[i + 1]) + (x[i + 1] - x[i]) * (s.boolean() ? 1 : -1) * s.positive(-12, -1);
      break;
    case 4: v = s.boolean() ? x.front() : x.back(); break;
    default: v = i + 1 < n ? s.uniform(x[i], x[i + 1]) : x[n - 1];
  }
  return remember(s, std::min(x.back(), std::max(x.front(), v)));
}

// A query strictly outside.
inline double outside(pbt::Src &s, const std::vector<double> &x) {
  if (!s.memo.empty() && s.chance(10)) {
    double v = s.memo[s.draw(s.memo.size())];
    if (v < x.front() || v > x.back()) return v;
  }
  double span = x.back() - x.front();
  if (span == 0) span = 1;
  bool above = s.boolean();
  double e = above ? x.back() : x.front(), d = above ? 1 : -1;
  switch (s.draw(4)) {
    case 0: return remember(s, std::nextafter(e, d * INFINITY));
    case 1: {
      double v = e + d * span * s.positive(s.boolean() ? -6 : -14, 0);
      return remember(s, v == e ? std::nextafter(e, d * INFINITY) : v);
    }
    case 2: return remember(s, e + d * span * s.positive(0, 3));
    default: return remember(s, e + d * span);
  }
}

// Names of series: a few fixed ones, or many, or names that differ by one character, by their length or by a null byte.
inline std::vector<std::string> names(pbt::Src &s, std::vector<std::string> fixed) {
  if (!s.chance(35)) return fixed;
  std::vector<std::string> v;
  int n = s.size(2, 40, 150), kind = (int) s.draw(4);
  for (int i = 0; i < n; ++i) {
    switch (kind) {
      case 0: v.push_back("s" + std::to_string(i)); break;
      case 1: v.push_back(std::string((size_t) i, 'a')); break;
      case 2: v.push_back(std::string("n\0", 2) + (char) ('A' + i % 26) + std::string((size_t) (i / 26), '_')); break;
      default: {
        std::string r;
        for (int k = (int) s.draw(6); k >= 0; --k) r += (char) s.draw(256);
        v.push_back(r);
      }
    }
  }
  return v;
}

}  // namespace gen
#endif
