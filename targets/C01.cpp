// C01: angle normalisation and trigonometry helpers.
#include "pbt.h"
#include "MathUtils/Angles.h"
using namespace mathutils;
PBT_PROPERTY("C01",
             "angles drawn on all scales (0, sub-epsilon, exact and near multiples of the half period, up to 1e15, both signs, "
             "double/float/int), each normalisation compared with the exact congruence class; non-trivial: the input lies outside "
             "the target interval or within 1e-9 of one of its ends")

static const long double PI_D = (long double) M_PI;

// distance between a and b on the circle of given period
static long double circ(long double a, long double b, long double period) {
  long double d = std::fmod(a - b, period);
  d = std::fabs(d);
  return std::min(d, period - d);
}
static double ulp(double x) {
  x = std::fabs(x);
  return std::nextafter(x, INFINITY) - x;
}

// An angle, in units where `period` is one turn.
static double gen_angle(pbt::Src &s, double period) {
  double half = period / 2;
  switch (s.draw(9)) {
    case 0: return s.scaled(-3, 4);
    case 1: return s.scaled(-320, -1, 0);                                // tiny, both signs, also sub-epsilon
    case 2: return s.integer(-8, 8) * half;                              // exact multiples
    case 3: {                                                            // neighbours of multiples
      double v = s.integer(-8, 8) * half;
      int n = (int) s.integer(-3, 3);
      for (int i = 0; i < std::abs(n); ++i) v = std::nextafter(v, n > 0 ? INFINITY : -INFINITY);
      return v;
    }
    case 4: return s.integer(-8, 8) * half + s.scaled(-16, -3);
    case 5: return s.scaled(3, 9, 0);
    case 6: return s.scaled(9, 15, 0);
    case 7: return (double) s.integer(-1000, 1000);
    default: return s.uniform(-2 * period, 2 * period);
  }
}

struct Norm {
  const char *name;
  double (*f)(double);
  double period, lo, hi;
  bool lo_closed;  // [lo,hi[ or ]lo,hi]
};
static double n0_360(double a) { return Normalize_0_360(a); }
static double n180(double a) { return Normalize__180_180(a); }
static double n0_2pi(double a) { return Normalize_0_2PI(a); }
static double npi(double a) { return Normalize__PI_PI(a); }
static const Norm NORMS[] = {{"Normalize_0_360", n0_360, 360., 0., 360., true},
                             {"Normalize__180_180", n180, 360., -180., 180., false},
                             {"Normalize_0_2PI", n0_2pi, MU_2PI, 0., MU_2PI, true},
                             {"Normalize__PI_PI", npi, MU_2PI, -M_PI, M_PI, false}};

TARGET(normalize_double, 400000) {
  const Norm &n = NORMS[s.draw(4)];
  s.label(n.name);
  double a = gen_angle(s, n.period);
  s.show("fn", n.name);
  s.show("angle", a);
  bool inside = n.lo_closed ? (a >= n.lo && a < n.hi) : (a > n.lo && a <= n.hi);
  if (inside) s.label("already-normal"); else s.label("outside");
  if (a < 0) s.label("negative");
  s.nontrivial(!inside || std::fabs(a - n.lo) < 1e-9 || std::fabs(a - n.hi) < 1e-9);
  double r = n.f(a);
  s.show("result", r);
  if (n.lo_closed) CHECK(r >= n.lo && r < n.hi, n.name << "(" << a << ") = " << r << " outside [" << n.lo << "," << n.hi << "[");
  else CHECK(r > n.lo && r <= n.hi, n.name << "(" << a << ") = " << r << " outside ]" << n.lo << "," << n.hi << "]");
  long double tol = 2 * (long double) ulp(std::fabs(a) + n.period);
  CHECK(circ(a, r, n.period) <= tol, n.name << "(" << a << ") = " << r << " is not congruent to the input modulo " << n.period);
  if (inside) CHECK(std::fabs(r - a) <= tol, n.name << "(" << a << ") = " << r << " moves an angle already in the interval");
  // idempotent
  double rr = n.f(r);
  CHECK(circ(rr, r, n.period) <= 2 * ulp(2 * n.period), "not idempotent: " << a << " -> " << r << " -> " << rr);
  // the same angle one turn further has the same representative (when the turn is added exactly)
  double k = (double) s.integer(-5, 5);
  double b = a + k * n.period;
  if ((long double) b == (long double) a + (long double) k * (long double) n.period) {
    double rb = n.f(b);
    CHECK(circ(rb, r, n.period) <= tol + 2 * ulp(std::fabs(b) + n.period), n.name << ": " << a << " and " << b << " differ by whole turns but give " << r << " and " << rb);
    s.label("whole-turn");
  }
}

TARGET(normalize_consistency, 150000) {
  // The two conventions represent the same direction, in degrees and in radians.
  bool deg = s.boolean();
  double period = deg ? 360. : MU_2PI;
  double a = gen_angle(s, period);
  s.show("unit", deg ? "deg" : "rad");
  s.show("angle", a);
  double p = deg ? Normalize_0_360(a) : Normalize_0_2PI(a);
  double q = deg ? Normalize__180_180(a) : Normalize__PI_PI(a);
  s.nontrivial(p != q);
  long double tol = 4 * (long double) ulp(std::fabs(a) + period);
  CHECK(circ(p, q, period) <= tol, "conventions disagree for " << a << ": " << p << " / " << q);
  if (p < period / 2 * (1 - 1e-6) && circ(a, 0, period) > 2 * tol && circ(a, period / 2, period) > 2 * tol)
    CHECK(std::fabs(p - q) <= tol, "in the first half turn both conventions must coincide: " << a << " -> " << p << ", " << q);
  // remainder
  double m = deg ? modulo360(a) : modulo2pi(a);
  CHECK(std::fabs(m) < period, "remainder of " << a << " is " << m);
  CHECK(circ(a, m, period) <= tol, "remainder of " << a << " is " << m << ", not congruent");
  if (a >= 0) CHECK(m >= 0, "remainder of a non-negative angle is negative: " << a << " -> " << m);
  if (std::fabs(a) < period && a >= 0) CHECK(m == a, "remainder moves " << a << " to " << m);
}

TARGET(normalize_float, 100000) {
  int w = (int) s.draw(4);
  const Norm &n = NORMS[w];
  float a = (float) (s.boolean() ? s.scaled(-6, 5) : s.integer(-8, 8) * n.period / 2 + s.scaled(-6, 1));
  s.show("fn", n.name);
  s.show("angle(float)", a);
  float r = w == 0 ? Normalize_0_360(a) : w == 1 ? Normalize__180_180(a) : w == 2 ? Normalize_0_2PI(a) : Normalize__PI_PI(a);
  s.nontrivial(r != a);
  float e = std::numeric_limits<float>::epsilon();
  long double tol = 3 * e * (std::fabs((long double) a) + n.period);
  CHECK(r >= n.lo - 2 * e * n.period && r <= n.hi + 2 * e * n.period, "float " << n.name << "(" << a << ") = " << r);
  CHECK(circ(a, r, n.period) <= tol, "float " << n.name << "(" << a << ") = " << r << " not congruent");
}

TARGET(normalize_int, 50000) {
  int a = (int) (s.boolean() ? s.integer(-1000000, 1000000) : s.integer(-12, 12) * 90);
  s.show("angle(int)", a);
  int ref = ((a % 360) + 360) % 360;
  s.nontrivial(a != ref);
  CHECK(Normalize_0_360(a) == ref, "Normalize_0_360(int " << a << ") = " << Normalize_0_360(a) << ", expected " << ref);
  int ref2 = ref > 180 ? ref - 360 : ref;
  CHECK(Normalize__180_180(a) == ref2, "Normalize__180_180(int " << a << ") = " << Normalize__180_180(a) << ", expected " << ref2);
}

TARGET(trigo, 150000) {
  bool deg = s.boolean();
  double a = deg ? (s.boolean() ? s.scaled(-6, 5) : (double) s.integer(-24, 24) * 15) : (s.boolean() ? s.scaled(-6, 3) : (double) s.integer(-24, 24) * M_PI / 12);
  s.show("unit", deg ? "DEG" : "RAD");
  s.show("angle", a);
  s.nontrivial(a != 0);
  double c = 7, z = 7;
  _GetTrigo(a, c, z, deg ? DEG : RAD);
  long double rad = deg ? (long double) a * std::acos(-1.0L) / 180 : (long double) a;
  long double tol = 4 * pbt::EPS * (1 + std::fabs(rad));
  pbt::near(c, std::cos(rad), tol, "cosine of " + pbt::str(a));
  pbt::near(z, std::sin(rad), tol, "sine of " + pbt::str(a));
  if (!deg) {
    double c2 = 7, z2 = 7;
    _GetTrigo(a, c2, z2);
    CHECK(c2 == c && z2 == z, "the default unit is not the radian");
  }
  float cf = 7, zf = 7;
  _GetTrigo<float>((float) a, cf, zf, deg ? DEG : RAD);
  long double radf = deg ? (long double) (float) a * std::acos(-1.0L) / 180 : (long double) (float) a;
  long double tolf = 4 * std::numeric_limits<float>::epsilon() * (1 + std::fabs(radf));
  pbt::near(cf, std::cos(radf), tolf, "float cosine");
  pbt::near(zf, std::sin(radf), tolf, "float sine");
}

static std::string gen_unit_name(pbt::Src &s) {
  std::string u = s.pick<std::string>({"DEG", "RAD"});
  switch (s.draw(8)) {
    case 0:
    case 1: return u;
    case 2: u += (char) s.integer(32, 126); return u;
    case 3: u.pop_back(); return u;
    case 4: u[s.draw(3)] ^= 0x20; return u;
    case 5: u[s.draw(3)] = (char) s.integer(32, 126); return u;
    case 6: return s.pick<std::string>({"", " ", "deg", "rad", "Degree", "DEGS", "RADS", "GRAD", "DEG ", " RAD", "DEGRAD"});
    default: {
      std::string r;
      int n = (int) s.integer(0, 6);
      for (int i = 0; i < n; ++i) r += (char) s.integer(32, 126);
      return r;
    }
  }
}
TARGET_FORK(string_to_unit, 1500) {
  std::string u = gen_unit_name(s);
  s.show("unit", u);
  if (u == "DEG" || u == "RAD") {
    s.label("known");
    CHECK(STRING2ANGLE(u) == (u == "DEG" ? DEG : RAD), "wrong unit for " << u);
  } else {
    s.nontrivial();
    s.label("unknown");
    auto r = pbt::in_child([&] { STRING2ANGLE(u); });
    CHECK(r.kind == pbt::ChildResult::THREW || (r.kind == pbt::ChildResult::EXITED && r.code != 0), "unknown unit '" << u << "' is not rejected: " << pbt::str(r));
  }
}
