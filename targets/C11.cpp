// C11: Vector2d: projections between the local frame and North-East-Down, transport, velocity vectors.
// scale: 16
#include "pbt.h"
#include "MathUtils/Vector2d.h"
using namespace mathutils;
PBT_PROPERTY("C11",
             "planar vectors on scales 1e-6..1e6, headings in radians and degrees of both signs, special (multiples of 45 degrees) and up to several hundred turns, transport points, rotation speeds in the six frequency "
             "units, speeds in the three speed units; each method, its in-place and free-function forms and the default arguments are compared with the rotation and the velocity field in long double; non-trivial: "
             "the vector is not null and the heading is not a multiple of a full turn")

typedef long double LD;
static const LD PI_L = std::acos(-1.0L);

struct Case { double x, y, angle; ANGLE_UNIT unit; LD c, sn, tol; };
static Case gen_case(pbt::Src &s) {
  Case k;
  k.x = s.scaled(-6, 6);
  k.y = s.scaled(-6, 6);
  k.unit = s.boolean() ? DEG : RAD;
  switch (s.draw(4)) {
    case 0: k.angle = s.integer(-16, 16) * (k.unit == DEG ? 45. : M_PI / 4); break;
    case 1: k.angle = s.uniform(-4, 4) * (k.unit == DEG ? 90. : M_PI / 2); break;
    case 2: k.angle = s.uniform(-500, 500) * (k.unit == DEG ? 360. : 2 * M_PI); break;
    default: k.angle = s.scaled(-6, 1);
  }
  LD a = k.unit == DEG ? (LD) k.angle * PI_L / 180 : (LD) k.angle;
  k.c = std::cos(a);
  k.sn = std::sin(a);
  k.tol = 8 * pbt::EPS * (1 + std::fabs(a)) * (std::fabs((LD) k.x) + std::fabs((LD) k.y)) + 1e-300L;
  s.show("x", k.x);
  s.show("y", k.y);
  s.show("angle", k.angle);
  s.show("unit", k.unit == DEG ? "DEG" : "RAD");
  s.nontrivial((k.x != 0 || k.y != 0) && std::fabs(k.sn) > 1e-9L);
  return k;
}
static void same(const Vector2d<double> &v, LD x, LD y, LD tol, const std::string &w) {
  pbt::near(v.at(0), x, tol, w + " x");
  pbt::near(v.at(1), y, tol, w + " y");
}

TARGET(projections, 120000) {
  Case k = gen_case(s);
  const Vector2d<double> v(k.x, k.y);
  LD nx = k.c * k.x - k.sn * k.y, ny = k.sn * k.x + k.c * k.y;  // local -> NED
  LD lx = k.c * k.x + k.sn * k.y, ly = -k.sn * k.x + k.c * k.y; // NED -> local
  Vector2d<double> o(7, 7), w = v;
  v.ProjectLocalOnNED(o, k.angle, k.unit);
  same(o, nx, ny, k.tol, "ProjectLocalOnNED(out)");
  w.ProjectLocalOnNED(k.angle, k.unit);
  same(w, nx, ny, k.tol, "ProjectLocalOnNED in place");
  same(ProjectLocalOnNED(v, k.angle, k.unit), nx, ny, k.tol, "ProjectLocalOnNED function");
  v.ProjectNEDOnLocal(o, k.angle, k.unit);
  same(o, lx, ly, k.tol, "ProjectNEDOnLocal(out)");
  Vector2d<double> w2 = v;
  w2.ProjectNEDOnLocal(k.angle, k.unit);
  same(w2, lx, ly, k.tol, "ProjectNEDOnLocal in place");
  same(ProjectNEDOnLocal(v, k.angle, k.unit), lx, ly, k.tol, "ProjectNEDOnLocal function");
  pbt::near(v.ProjectOnNorthAxis(k.angle, k.unit), nx, k.tol, "ProjectOnNorthAxis");
  pbt::near(v.ProjectOnEastAxis(k.angle, k.unit), ny, k.tol, "ProjectOnEastAxis");
  pbt::near(v.ProjectOnLocalXAxis(k.angle, k.unit), lx, k.tol, "ProjectOnLocalXAxis");
  pbt::near(v.ProjectOnLocalYAxis(k.angle, k.unit), ly, k.tol, "ProjectOnLocalYAxis");
  pbt::near(ProjectOnNorthAxis(v, k.angle, k.unit), nx, k.tol, "ProjectOnNorthAxis function");
  pbt::near(ProjectOnEastAxis(v, k.angle, k.unit), ny, k.tol, "ProjectOnEastAxis function");
  pbt::near(ProjectOnLocalXAxis(v, k.angle, k.unit), lx, k.tol, "ProjectOnLocalXAxis function");
  pbt::near(ProjectOnLocalYAxis(v, k.angle, k.unit), ly, k.tol, "ProjectOnLocalYAxis function");
  CHECK(v.at(0) == k.x && v.at(1) == k.y, "a projection modified its const vector");
  // round trips and norm
  w.ProjectNEDOnLocal(k.angle, k.unit);
  same(w, k.x, k.y, 4 * k.tol, "local -> NED -> local");
  w2.ProjectLocalOnNED(k.angle, k.unit);
  same(w2, k.x, k.y, 4 * k.tol, "NED -> local -> NED");
  pbt::near(ProjectLocalOnNED(v, k.angle, k.unit).norm(), std::hypot((LD) k.x, (LD) k.y), 4 * k.tol, "norm");
  // aliased output
  Vector2d<double> al = v;
  al.ProjectLocalOnNED(al, k.angle, k.unit);
  same(al, nx, ny, k.tol, "ProjectLocalOnNED on itself");
  al = v;
  al.ProjectNEDOnLocal(al, k.angle, k.unit);
  same(al, lx, ly, k.tol, "ProjectNEDOnLocal on itself");
  Vector2d<double> st(3, 3);
  st.SetNEDFromLocal(k.x, k.y, k.angle, k.unit);
  same(st, nx, ny, k.tol, "SetNEDFromLocal");
  if (k.unit == RAD) {  // default unit
    same(ProjectLocalOnNED(v, k.angle), nx, ny, k.tol, "ProjectLocalOnNED default unit");
    same(ProjectNEDOnLocal(v, k.angle), lx, ly, k.tol, "ProjectNEDOnLocal default unit");
    pbt::near(v.ProjectOnNorthAxis(k.angle), nx, k.tol, "ProjectOnNorthAxis default unit");
    pbt::near(v.ProjectOnEastAxis(k.angle), ny, k.tol, "ProjectOnEastAxis default unit");
    pbt::near(v.ProjectOnLocalXAxis(k.angle), lx, k.tol, "ProjectOnLocalXAxis default unit");
    pbt::near(v.ProjectOnLocalYAxis(k.angle), ly, k.tol, "ProjectOnLocalYAxis default unit");
    Vector2d<double> d;
    d.SetNEDFromLocal(k.x, k.y, k.angle);
    same(d, nx, ny, k.tol, "SetNEDFromLocal default unit");
  }
}

// a random chain of projections ends where the composed rotation says
TARGET(chains, 30000) {
  double x = s.uniform(-10, 10), y = s.uniform(-10, 10);
  Vector2d<double> v(x, y);
  LD a = 0, budget = 1;
  int n = s.size(1, 12);
  s.show("x", x);
  s.show("y", y);
  for (int i = 0; i < n; ++i) {
    ANGLE_UNIT u = s.boolean() ? DEG : RAD;
    double t = s.uniform(-3, 3) * (u == DEG ? 180 : M_PI);
    LD r = u == DEG ? (LD) t * PI_L / 180 : (LD) t;
    budget += 1 + std::fabs(r);
    bool ned = s.boolean();
    s.desc << (ned ? "+" : "-") << t << (u == DEG ? "deg " : "rad ");
    if (ned) { v.ProjectLocalOnNED(t, u); a += r; } else { v.ProjectNEDOnLocal(t, u); a -= r; }
    same(v, std::cos(a) * x - std::sin(a) * y, std::sin(a) * x + std::cos(a) * y, 16 * pbt::EPS * budget * (std::fabs((LD) x) + std::fabs((LD) y)), "chain of projections");
  }
  s.nontrivial(n > 1);
}

static const FREQUENCY_UNIT FU[] = {HERTZ, RADS, DEGS, DEGM, S, RPM};
static LD to_rads(LD v, int u) {
  switch (u) {
    case 0: return v * 2 * PI_L;
    case 1: return v;
    case 2: return v * PI_L / 180;
    case 3: return v * PI_L / 180 / 60;
    case 4: return 2 * PI_L / v;
    default: return v * 2 * PI_L / 60;
  }
}
TARGET(transport, 80000) {
  double x = s.scaled(-3, 3), y = s.scaled(-3, 3), px = s.scaled(-3, 3), py = s.scaled(-3, 3);
  int u = (int) s.draw(6);
  double w = s.scaled(-3, 3, u == 4 ? 0 : 5);
  if (u == 4 && w == 0) w = 2;
  s.show("v", std::vector<double>{x, y});
  s.show("point", std::vector<double>{px, py});
  s.show("w", w);
  s.show("unit", u);
  LD W = to_rads(w, u);
  LD rx = x - W * py, ry = y + W * px, tol = 20 * pbt::EPS * (std::fabs((LD) x) + std::fabs((LD) y) + std::fabs(W) * (std::fabs((LD) px) + std::fabs((LD) py))) + 1e-300L;
  const Vector2d<double> v(x, y), p(px, py);
  Vector2d<double> o(9, 9), i = v;
  v.TransportAtPoint(o, p, w, FU[u]);
  same(o, rx, ry, tol, "TransportAtPoint(out)");
  i.TransportAtPoint(p, w, FU[u]);
  same(i, rx, ry, tol, "TransportAtPoint in place");
  same(TransportAtPoint(v, p, w, FU[u]), rx, ry, tol, "TransportAtPoint function");
  if (u == 1) {
    same(TransportAtPoint(v, p, w), rx, ry, tol, "TransportAtPoint default unit");
    Vector2d<double> d = v;
    d.TransportAtPoint(p, w);
    same(d, rx, ry, tol, "TransportAtPoint in place default unit");
  }
  // the output may be the point or the vector, and the point the vector
  Vector2d<double> al = p;
  v.TransportAtPoint(al, al, w, FU[u]);
  same(al, rx, ry, tol, "TransportAtPoint written over the point");
  al = v;
  al.TransportAtPoint(al, p, w, FU[u]);
  same(al, rx, ry, tol, "TransportAtPoint written over the vector");
  al = v;
  LD sx = x - W * y, sy = y + W * x, st = 20 * pbt::EPS * (1 + std::fabs(W)) * (std::fabs((LD) x) + std::fabs((LD) y)) + 1e-300L;
  al.TransportAtPoint(al, w, FU[u]);
  same(al, sx, sy, st, "TransportAtPoint at the point of the same coordinates, in place");
  same(TransportAtPoint(v, v, w, FU[u]), sx, sy, st, "TransportAtPoint function at the point of the same coordinates");
  // back: the velocity of the reference seen from the point
  Vector2d<double> back = i, mp(-px, -py);
  back.TransportAtPoint(mp, w, FU[u]);
  same(back, x, y, 2 * tol, "transport and back");
  s.nontrivial(W != 0 && (px != 0 || py != 0));
}

// single precision: the same relations, to the precision of float
TARGET(single_precision, 30000) {
  float x = (float) s.scaled(-3, 3), y = (float) s.scaled(-3, 3);
  ANGLE_UNIT unit = s.boolean() ? DEG : RAD;
  float ang = (float) (s.uniform(-4, 4) * (unit == DEG ? 90. : M_PI / 2));
  LD a = unit == DEG ? (LD) ang * PI_L / 180 : (LD) ang, c = std::cos(a), sn = std::sin(a);
  float px = (float) s.scaled(-3, 3), py = (float) s.scaled(-3, 3), w = (float) s.scaled(-3, 3);
  int u = (int) s.draw(6);
  if (u == 4 && w == 0) w = 2;
  s.show("v", std::vector<double>{x, y});
  s.show("angle", ang);
  s.show("unit", unit == DEG ? "DEG" : "RAD");
  s.show("point", std::vector<double>{px, py});
  s.show("w", w);
  s.show("frequency unit", u);
  s.nontrivial((x != 0 || y != 0) && std::fabs(sn) > 1e-3L);
  const LD E = std::numeric_limits<float>::epsilon();
  LD tol = 16 * E * (1 + std::fabs(a)) * (std::fabs((LD) x) + std::fabs((LD) y)) + 1e-40L;
  LD nx = c * x - sn * y, ny = sn * x + c * y, lx = c * x + sn * y, ly = -sn * x + c * y;
  const Vector2d<float> v(x, y);
  auto eq = [](const Vector2d<float> &g, LD ex, LD ey, LD t, const char *what) {
    pbt::near(g.at(0), ex, t, std::string(what) + " x, single precision");
    pbt::near(g.at(1), ey, t, std::string(what) + " y, single precision");
  };
  Vector2d<float> o;
  v.ProjectLocalOnNED(o, ang, unit);
  eq(o, nx, ny, tol, "ProjectLocalOnNED");
  v.ProjectNEDOnLocal(o, ang, unit);
  eq(o, lx, ly, tol, "ProjectNEDOnLocal");
  pbt::near(v.ProjectOnNorthAxis(ang, unit), nx, tol, "ProjectOnNorthAxis, single precision");
  pbt::near(v.ProjectOnEastAxis(ang, unit), ny, tol, "ProjectOnEastAxis, single precision");
  pbt::near(v.ProjectOnLocalXAxis(ang, unit), lx, tol, "ProjectOnLocalXAxis, single precision");
  pbt::near(v.ProjectOnLocalYAxis(ang, unit), ly, tol, "ProjectOnLocalYAxis, single precision");
  static const FREQUENCY_UNIT F[] = {HERTZ, RADS, DEGS, DEGM, S, RPM};
  LD W = to_rads(w, u);
  eq(TransportAtPoint(v, Vector2d<float>(px, py), w, F[u]), x - W * py, y + W * px,
     30 * E * (std::fabs((LD) x) + std::fabs((LD) y) + std::fabs(W) * (std::fabs((LD) px) + std::fabs((LD) py))) + 1e-36L, "TransportAtPoint");
}

static const SPEED_UNIT SU[] = {MS, KNOT, KMH};
static const LD SF[] = {1.0L, 1852.0L / 3600.0L, 1000.0L / 3600.0L};
TARGET(velocity_vector, 60000) {
  Case k = gen_case(s);
  int i = (int) s.draw(3), j = (int) s.draw(3);
  s.show("from", i);
  s.show("to", j);
  LD f = SF[i] / SF[j];
  LD nx = (k.c * k.x - k.sn * k.y) * f, ny = (k.sn * k.x + k.c * k.y) * f;
  same(GetNEDVelocityVector(k.x, k.y, k.angle, k.unit, SU[i], SU[j]), nx, ny, 2 * k.tol * f, "GetNEDVelocityVector");
  if (i == 1 && j == 0) {
    same(GetNEDVelocityVector(k.x, k.y, k.angle, k.unit), nx, ny, 2 * k.tol * f, "GetNEDVelocityVector default speed units");
    if (k.unit == RAD) same(GetNEDVelocityVector(k.x, k.y, k.angle), nx, ny, 2 * k.tol * f, "GetNEDVelocityVector defaults");
  }
}
