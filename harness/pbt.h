// pbt.h : a small choice-sequence property-based testing engine (Hypothesis style).
//
// A target is a function  void f(pbt::Src& s)  which draws every random decision from `s`, runs the
// code under test and compares it with an oracle.  A draw is an integer in [0, bound); a case is the
// sequence of draws, so shrinking and replaying only ever manipulate that sequence.
//
//   s.integer(lo,hi) s.real(lo,hi) s.chance(pct) s.pick({..})   draws
//   s.label("class")         counts a class of cases (distribution goes to the evidence file)
//   s.nontrivial()           marks the case as non-trivial
//   s.show("x", v)           writes a value in the human readable description of the case
//   CHECK(cond, msg) / near(..) / pbt::fail(msg)                   the oracle
//
// The driver forks workers; a worker that dies (signal, assert, sanitizer report, exit()) in the
// middle of a case is a failure of that case.  Failures are shrunk, replayed three times in fresh
// processes and only then reported.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <algorithm>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace pbt {

// ---------------------------------------------------------------------------------------------
// Random source
// ---------------------------------------------------------------------------------------------
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x5851f42d4c957f2dULL)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
};

struct Failure {
  std::string msg;
};
struct TooLong {};  // a case that draws too much: discarded (never happens for the sound generators)

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }

template<class T>
inline std::string str(const T &v) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}
template<class T>
inline std::string str(const std::vector<T> &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i == 24 && v.size() > 28) { o << ", ... (" << v.size() << " values)"; break; }
    o << (i ? ", " : "") << v[i];
  }
  o << "]";
  return o.str();
}

class Src {
 public:
  std::vector<uint64_t> seq;  // choices made (generation) or to replay
  size_t pos = 0;
  bool replaying = false;
  Rng rng{0};
  bool is_nontrivial = false;
  std::vector<const char *> labels;
  std::vector<std::string> dyn_labels;
  std::ostringstream desc;
  std::vector<double> memo;  // recent queries of the case, asked again now and then (of the same or of another object)
  uint64_t *rec = nullptr;  // shared buffer: choices survive the death of the process

  explicit Src(uint64_t seed) : rng(seed) { desc.precision(17); }
  explicit Src(std::vector<uint64_t> s) : seq(std::move(s)), replaying(true) { desc.precision(17); }

  // ---- raw draw -----------------------------------------------------------------------------
  uint64_t draw(uint64_t bound) {  // uniform in [0,bound)
    if (bound <= 1) return 0;
    if (pos > 200000) throw TooLong{};
    uint64_t v;
    if (replaying) {
      v = pos < seq.size() ? seq[pos] % bound : 0;
      if (pos < seq.size()) seq[pos] = v;
      pos++;
    } else {
      v = (uint64_t) (((unsigned __int128) rng.next() * bound) >> 64);
      seq.push_back(v);
      pos++;
      if (rec) { rec[pos] = v; rec[0] = pos; }
    }
    return v;
  }

  // ---- integers -----------------------------------------------------------------------------
  int64_t integer(int64_t lo, int64_t hi) {  // shrinks towards lo
    assert(lo <= hi);
    return lo + (int64_t) draw((uint64_t) (hi - lo) + 1);
  }
  // size biased to small values, but reaching hi
  // (one case in 100 goes beyond hi, up to `big`, often around powers of two and round numbers)
  int size(int lo, int hi, int big = 0) {
    if (big > hi && draw(100) == 99) {
      int v;
      switch (draw(3)) {
        case 0: v = (1 << (int) integer(3, 12)) + (int) integer(0, 2) - 1; break;
        case 1: v = (int) integer(1, 40) * (boolean() ? 100 : 10) + (int) integer(0, 2) - 1; break;
        default: v = (int) integer(hi, big);
      }
      return v > big || v < lo ? (int) integer(hi, big) : v;
    }
    switch (draw(8)) {
      case 0: return lo;
      case 1: return (int) integer(lo, std::min(hi, lo + 1));
      case 2:
      case 3:
      case 4: return (int) integer(lo, std::min(hi, lo + 6));
      case 5:
      case 6: return (int) integer(lo, std::min(hi, lo + 20));
      default: return (int) integer(lo, hi);
    }
  }
  bool chance(int pct) { return draw(100) >= (uint64_t) (100 - pct); }  // shrinks towards false
  bool boolean() { return draw(2) == 1; }
  template<class T>
  T pick(std::initializer_list<T> l) {
    auto it = l.begin();
    std::advance(it, (long) draw(l.size()));
    return *it;
  }
  template<class T>
  const T &pick(const std::vector<T> &l) { return l[draw(l.size())]; }

  // ---- reals --------------------------------------------------------------------------------
  double unit() { return (double) draw(1ULL << 53) * 0x1p-53; }  // [0,1)
  // uniform or "nice" in [lo,hi], endpoints included with noticeable probability
  double real(double lo, double hi) {
    if (lo >= hi) return lo;
    switch (draw(10)) {
      case 0: {  // nice: an integer in the range if any
        double a = std::ceil(lo), b = std::floor(hi);
        if (a <= b && b - a < 1e15) {
          double z = (a <= 0 && b >= 0) ? 0. : (a > 0 ? a : b);
          // zig-zag around z so that shrinking goes to the simplest value
          uint64_t n = draw((uint64_t) (b - a) + 1);
          double c = z + ((n & 1) ? (double) ((n + 1) / 2) : -(double) (n / 2));
          if (c < a || c > b) c = (z - a < b - z) ? a + (double) n : b - (double) n;
          return std::min(b, std::max(a, c));
        }
        return lo + (hi - lo) * 0.5;
      }
      case 1: return lo;
      case 2: return hi;
      case 3: return lo + (hi - lo) * (double) draw(65) / 64.;
      default: {
        double v = lo + (hi - lo) * unit();
        return v < lo ? lo : (v > hi ? hi : v);
      }
    }
  }
  // strictly uniform on [lo,hi]
  double uniform(double lo, double hi) {
    double v = lo + (hi - lo) * unit();
    return v < lo ? lo : (v > hi ? hi : v);
  }
  // value of any sign, |v| log-uniform in [10^elo,10^ehi], sometimes zero or a small integer
  double scaled(double elo = -6, double ehi = 6, int pct_zero = 5) {
    int k = (int) draw(100);
    if (k < pct_zero) return 0.;
    if (k < pct_zero + 20) return (double) integer(0, 20) * (boolean() ? -1. : 1.);
    if (draw(16) == 15) { elo -= 8; ehi += 8; }  // far below or above the usual scales
    double m = std::pow(10., elo + (ehi - elo) * unit());
    return boolean() ? -m : m;
  }
  double sign() { return boolean() ? 1. : -1.; }
  double positive(double elo = -6, double ehi = 6) { return std::pow(10., elo + (ehi - elo) * unit()); }

  // ---- bookkeeping --------------------------------------------------------------------------
  void label(const char *l) { labels.push_back(l); }
  void label(const std::string &l) { dyn_labels.push_back(l); }
  void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
  template<class T>
  const T &show(const char *name, const T &v) {
    desc << name << "=" << str(v) << "; ";
    return v;
  }
  void note(const std::string &t) { desc << t << "; "; }
};

// ---------------------------------------------------------------------------------------------
// Oracle helpers
// ---------------------------------------------------------------------------------------------
#define CHECK(cond, msg)                                                                           \
  do {                                                                                             \
    if (!(cond)) {                                                                                 \
      std::ostringstream pbt_o;                                                                    \
      pbt_o.precision(17);                                                                         \
      pbt_o << msg << "   [" #cond "]";                                                            \
      ::pbt::fail(pbt_o.str());                                                                    \
    }                                                                                              \
  } while (0)

inline void near(long double got, long double want, long double tol, const std::string &what) {
  if (!(std::fabs(got - want) <= tol)) {  // NaN fails
    std::ostringstream o;
    o.precision(20);
    o << what << ": got " << got << ", expected " << want << ", |diff| " << std::fabs(got - want) << " > tol " << tol;
    fail(o.str());
  }
}
template<class T>
inline void nearc(std::complex<T> got, std::complex<long double> want, long double tol, const std::string &what) {
  near((long double) got.real(), want.real(), tol, what + " (real part)");
  near((long double) got.imag(), want.imag(), tol, what + " (imaginary part)");
}
const double EPS = std::numeric_limits<double>::epsilon();

// Result of running something in a child process, for behaviours that end the process.
struct ChildResult {
  enum Kind { RETURNED, THREW, EXITED, SIGNALED } kind;
  int code;          // exit code or signal
  std::string what;  // for THREW: tag given by the body
};
inline std::string str(const ChildResult &r) {
  switch (r.kind) {
    case ChildResult::RETURNED: return "returned normally";
    case ChildResult::THREW: return "threw " + r.what;
    case ChildResult::EXITED: return "exited with status " + std::to_string(r.code);
    default: return "killed by signal " + std::to_string(r.code);
  }
}
// body runs in a forked child
inline ChildResult in_child(const std::function<void()> &body) {
  int p[2];
  if (pipe(p) != 0) { perror("pipe"); _exit(97); }
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(97); }
  if (pid == 0) {
    close(p[0]);
    std::string tag = "R";
    try { body(); }
    catch (const std::out_of_range &e) { tag = "Tout_of_range"; }
    catch (const std::invalid_argument &e) { tag = "Tinvalid_argument"; }
    catch (const std::logic_error &e) { tag = "Tlogic_error"; }
    catch (const std::runtime_error &e) { tag = "Truntime_error"; }
    catch (const std::exception &e) { tag = "Texception"; }
    catch (const Failure &f) { tag = "F" + f.msg; }
    catch (...) { tag = "Tunknown"; }
    if (write(p[1], tag.data(), tag.size()) < 0) {}
    _exit(0);
  }
  close(p[1]);
  std::string got;
  char buf[512];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) got.append(buf, (size_t) n);
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  ChildResult r{ChildResult::RETURNED, 0, ""};
  if (WIFSIGNALED(st)) { r.kind = ChildResult::SIGNALED; r.code = WTERMSIG(st); return r; }
  if (got.empty()) { r.kind = ChildResult::EXITED; r.code = WEXITSTATUS(st); return r; }
  if (got[0] == 'T') { r.kind = ChildResult::THREW; r.what = got.substr(1); }
  if (got[0] == 'F') fail(got.substr(1));
  return r;
}

// ---------------------------------------------------------------------------------------------
// Targets
// ---------------------------------------------------------------------------------------------
struct Target {
  std::string name;
  int quick_cases;       // number of cases in the quick tier
  int thorough_factor;   // multiplied by this in the thorough tier
  bool fuzzable;         // can run inside libFuzzer (no forking)
  std::function<void(Src &)> fn;
};
inline std::vector<Target> &targets() {
  static std::vector<Target> t;
  return t;
}
struct Reg {
  Reg(const char *n, int q, int tf, bool fz, std::function<void(Src &)> f) { targets().push_back({n, q, tf, fz, std::move(f)}); }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define TARGET(name, quick)                                                                        \
  static void PBT_CAT(tgt_, name)(pbt::Src & s);                                                   \
  static pbt::Reg PBT_CAT(reg_, name)(#name, quick, 25, true, PBT_CAT(tgt_, name));                \
  static void PBT_CAT(tgt_, name)(pbt::Src & s)
#define TARGET_FORK(name, quick)                                                                   \
  static void PBT_CAT(tgt_, name)(pbt::Src & s);                                                   \
  static pbt::Reg PBT_CAT(reg_, name)(#name, quick, 10, false, PBT_CAT(tgt_, name));               \
  static void PBT_CAT(tgt_, name)(pbt::Src & s)

int driver_main(int argc, char **argv, const char *property, const char *rule);

}  // namespace pbt

// A target file with a line "// parts: N" is compiled N times, with PBT_PART from 1 to N, in parallel.
#ifdef PBT_PART
#define PART(k) (PBT_PART == (k))
#else
#define PART(k) 1
#endif
#if PART(1)
#define PBT_PROPERTY(id, rule)                                                                     \
  const char *pbt_property_id = id;                                                                \
  const char *pbt_rule = rule;
#else
#define PBT_PROPERTY(id, rule)
#endif

#endif
