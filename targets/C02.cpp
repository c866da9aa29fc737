// C02: unit conversions.
// scale: 12
#include "pbt.h"
#include "MathUtils/Unit.h"
#include "MathUtils/Angles.h"
using namespace mathutils;
PBT_PROPERTY("C02",
             "values on scales 1e-6..1e6 of both signs (non-zero where a period is involved) and every ordered pair/triple of units, "
             "scalar (double and float), named one-to-one converters and in-place/copy vector forms, against exact reference factors "
             "in long double; non-trivial: source and target units differ and the value is non-zero")

static const long double PI_L = std::acos(-1.0L);
static const SPEED_UNIT SU[] = {MS, KNOT, KMH};
static const char *SN[] = {"MS", "KNOT", "KMH"};
static const long double SF[] = {1.0L, 1852.0L / 3600.0L, 1000.0L / 3600.0L};  // in m/s
static const FREQUENCY_UNIT FU[] = {HERTZ, RADS, DEGS, DEGM, S, RPM};
static const char *FN[] = {"HERTZ", "RADS", "DEGS", "DEGM", "S", "RPM"};

static long double to_hz(long double v, int u) {
  switch (u) {
    case 0: return v;
    case 1: return v / (2 * PI_L);
    case 2: return v / 360;
    case 3: return v / 360 / 60;
    case 4: return 1 / v;
    default: return v / 60;
  }
}
static long double from_hz(long double v, int u) {
  switch (u) {
    case 0: return v;
    case 1: return v * 2 * PI_L;
    case 2: return v * 360;
    case 3: return v * 360 * 60;
    case 4: return 1 / v;
    default: return v * 60;
  }
}
static const long double RT = 20 * std::numeric_limits<double>::epsilon();
static void rel(long double got, long double want, long double rt, const std::string &w) { pbt::near(got, want, rt * std::fabs(want), w); }

TARGET(speed, 200000) {
  int i = (int) s.draw(3), j = (int) s.draw(3), k = (int) s.draw(3);
  double v = s.chance(30) ? s.scaled(-12, 12) : s.scaled(-6, 6);
  s.show("v", v);
  s.show("from", SN[i]);
  s.show("to", SN[j]);
  s.nontrivial(i != j && v != 0);
  double r = convert_velocity_unit(v, SU[i], SU[j]);
  rel(r, v * SF[i] / SF[j], RT, std::string("velocity ") + SN[i] + "->" + SN[j]);
  if (i == j) CHECK(r == v || std::fabs(r - v) <= RT * std::fabs(v), "identity conversion changes the value");
  rel(convert_velocity_unit(r, SU[j], SU[i]), v, RT, "velocity round trip");
  rel(convert_velocity_unit(r, SU[j], SU[k]), convert_velocity_unit(v, SU[i], SU[k]), RT, "velocity conversion is not transitive");
  rel(convert_velocity_unit(v, SU[i]), v * SF[i], RT, "the default target unit is m/s");
  float vf = (float) v;
  rel(convert_velocity_unit<float>(vf, SU[i], SU[j]), (long double) vf * SF[i] / SF[j], 10 * std::numeric_limits<float>::epsilon(), "float velocity");
  // named converters
  double named = v;
  switch (i * 3 + j) {
    case 1: named = MS2KNOT(v); break;
    case 2: named = MS2KMH(v); break;
    case 3: named = KNOT2MS(v); break;
    case 5: named = KNOT2KMH(v); break;
    case 6: named = KMH2MS(v); break;
    case 7: named = KMH2KNOT(v); break;
    default: break;
  }
  rel(named, v * SF[i] / SF[j], RT, std::string("named velocity converter ") + SN[i] + "2" + SN[j]);
}

TARGET(frequency, 300000) {
  int i = (int) s.draw(6), j = (int) s.draw(6), k = (int) s.draw(6);
  double v = s.chance(30) ? s.scaled(-12, 12) : s.scaled(-6, 6);
  if (v == 0 && (i == 4 || j == 4 || k == 4)) v = 1;  // a null frequency has no period
  s.show("v", v);
  s.show("from", FN[i]);
  s.show("to", FN[j]);
  s.show("then", FN[k]);
  s.nontrivial(i != j && v != 0);
  if (i == 4 || j == 4) s.label("period");
  long double ref = i == j ? (long double) v : from_hz(to_hz(v, i), j);
  double r = convert_frequency(v, FU[i], FU[j]);
  rel(r, ref, RT, std::string("frequency ") + FN[i] + "->" + FN[j]);
  if (i == j) CHECK(r == v, "identity conversion changes the value");
  rel(convert_frequency(r, FU[j], FU[i]), v, RT, "frequency round trip");
  rel(convert_frequency(r, FU[j], FU[k]), convert_frequency(v, FU[i], FU[k]), RT, "frequency conversion is not transitive");
  float vf = (float) v;
  if (vf != 0 || (i != 4 && j != 4)) {
    long double reff = i == j ? (long double) vf : from_hz(to_hz(vf, i), j);
    rel(convert_frequency<float>(vf, FU[i], FU[j]), reff, 10 * std::numeric_limits<float>::epsilon(), "float frequency");
  }
}

TARGET(frequency_named, 100000) {
  double v = s.chance(30) ? s.scaled(-12, 12, 0) : s.scaled(-6, 6, 0);
  if (v == 0) v = 1;
  s.show("v", v);
  s.nontrivial();
  long double V = v;
  switch (s.draw(12)) {
    case 0: s.note("DEGS2RADS"); rel(DEGS2RADS(v), V * PI_L / 180, RT, "DEGS2RADS"); break;
    case 1: s.note("RADS2DEGS"); rel(RADS2DEGS(v), V * 180 / PI_L, RT, "RADS2DEGS"); break;
    case 2: s.note("HZ2RADS"); rel(HZ2RADS(v), V * 2 * PI_L, RT, "HZ2RADS"); break;
    case 3: s.note("RADS2HZ"); rel(RADS2HZ(v), V / (2 * PI_L), RT, "RADS2HZ"); break;
    case 4: s.note("HZ2S"); rel(HZ2S(v), 1 / V, RT, "HZ2S"); break;
    case 5: s.note("S2HZ"); rel(S2HZ(v), 1 / V, RT, "S2HZ"); break;
    case 6: s.note("RADS2S"); rel(RADS2S(v), 2 * PI_L / V, RT, "RADS2S"); break;
    case 7: s.note("S2RADS"); rel(S2RADS(v), 2 * PI_L / V, RT, "S2RADS"); break;
    case 8: s.note("RPM2RADS"); rel(RPM2RADS(v), V * 2 * PI_L / 60, RT, "RPM2RADS"); break;
    case 9: s.note("RADS2RPM"); rel(RADS2RPM(v), V * 60 / (2 * PI_L), RT, "RADS2RPM"); break;
    case 10: s.note("DEGM2RADS"); rel(DEGM2RADS(v), V * PI_L / 180 / 60, RT, "DEGM2RADS"); break;
    default: s.note("RADS2DEGM"); rel(RADS2DEGM(v), V * 180 * 60 / PI_L, RT, "RADS2DEGM"); break;
  }
}

TARGET(vectors, 60000) {
  int n = s.size(0, 60, 3000);
  std::vector<double> v(n);
  for (auto &x: v) x = s.scaled(-6, 6);
  s.show("v", v);
  s.nontrivial(n > 0);
  int kind = (int) s.draw(3);
  long double f = kind == 0 ? PI_L / 180 : kind == 1 ? 180 / PI_L : 1852.0L / 3600;
  const char *nm = kind == 0 ? "deg2rad" : kind == 1 ? "rad2deg" : "kt2ms";
  s.show("fn", nm);
  std::vector<double> in = v, out = s.boolean() ? std::vector<double>() : std::vector<double>((size_t) s.integer(0, 5), 3.25);
  const std::vector<double> cin = v;
  if (kind == 0) { deg2rad(in); deg2rad(cin, out); }
  else if (kind == 1) { rad2deg(in); rad2deg(cin, out); }
  else { kt2ms(in); kt2ms(cin, out); }
  CHECK(cin == v, nm << " by copy modifies its input");
  CHECK(in.size() == v.size() && out.size() == v.size(), nm << " changes the number of values");
  for (int i = 0; i < n; ++i) {
    rel(in[i], v[i] * f, RT, std::string(nm) + " in place");
    rel(out[i], v[i] * f, RT, std::string(nm) + " by copy");
  }
  // round trip
  if (kind == 0) { rad2deg(in); for (int i = 0; i < n; ++i) rel(in[i], v[i], RT, "deg->rad->deg"); }
  if (kind == 1) { deg2rad(in); for (int i = 0; i < n; ++i) rel(in[i], v[i], RT, "rad->deg->rad"); }
}

TARGET(constants, 2000) {
  // the published conversion constants, used as factors by user code
  double v = s.scaled(-3, 3, 0);
  s.show("v", v);
  s.nontrivial();
  rel(v * DEG2RAD, v * PI_L / 180, RT, "DEG2RAD");
  rel(v * RAD2DEG, v * 180 / PI_L, RT, "RAD2DEG");
  rel(v * MU_KNOT, v * 1852.0L / 3600, RT, "MU_KNOT");
  rel(v * MU_KMH, v / 3.6L, RT, "MU_KMH");
  rel(v * MU_PI, v * PI_L, RT, "MU_PI");
  rel(v * MU_2PI, v * 2 * PI_L, RT, "MU_2PI");
  rel(v * MU_PI_2, v * PI_L / 2, RT, "MU_PI_2");
  rel(v * MU_2_PI, v * 2 / PI_L, RT, "MU_2_PI");
  rel(v * MU_4PI, v * 4 * PI_L, RT, "MU_4PI");
  rel(v * MU_PI_4, v * PI_L / 4, RT, "MU_PI_4");
  rel(v * MU_1_4PI, v / (4 * PI_L), RT, "MU_1_4PI");
  rel(v * MU_RPM2RADS, v * 2 * PI_L / 60, RT, "MU_RPM2RADS");
  rel(v * MU_SQRT2, v * std::sqrt(2.0L), RT, "MU_SQRT2");
  rel(v * MU_SQRT2_2, v * std::sqrt(2.0L) / 2, RT, "MU_SQRT2_2");
  rel(v * MU_ONE_DAY, v * 86400.0L, RT, "MU_ONE_DAY");
  rel(v * MU_ONE_HOUR, v * 3600.0L, RT, "MU_ONE_HOUR");
  rel(v * MU_ONE_MILE, v * 1852.0L, RT, "MU_ONE_MILE");
}
