// C13: rotations: quaternion <-> matrix <-> Euler angles (ZYX).
// scale: 8
#include "pbt.h"
#include "MathUtils/Geometry.h"
using namespace mathutils;
PBT_PROPERTY("C13",
             "rotations given by Euler angles (any roll and yaw, pitch over the full range, at and within 1e-16..1e-2 of +-90 degrees, several turns), by random unit quaternions (both signs, axis aligned, near 180 degrees, "
             "tiny rotations) and by rotation matrices; every conversion is compared with the rotation matrix product Rz*Ry*Rx or the quaternion action in long double, round trips preserve the rotation; "
             "non-trivial: the rotation is not about a single coordinate axis")
typedef long double LD;
static const LD PI_L = std::acos(-1.0L);
struct R3 { LD m[3][3]; };
static R3 mul(const R3 &a, const R3 &b) { R3 c; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { c.m[i][j] = 0; for (int k = 0; k < 3; ++k) c.m[i][j] += a.m[i][k] * b.m[k][j]; } return c; }
static R3 rx(LD t) { LD c = std::cos(t), s = std::sin(t); return {{{1, 0, 0}, {0, c, -s}, {0, s, c}}}; }
static R3 ry(LD t) { LD c = std::cos(t), s = std::sin(t); return {{{c, 0, s}, {0, 1, 0}, {-s, 0, c}}}; }
static R3 rz(LD t) { LD c = std::cos(t), s = std::sin(t); return {{{c, -s, 0}, {s, c, 0}, {0, 0, 1}}}; }
static R3 of_euler(const Eigen::Vector3d &e) { return mul(rz(e(2)), mul(ry(e(1)), rx(e(0)))); }
static R3 of_quat(const Eigen::Quaterniond &q) {  // rotation of the normalised quaternion: v -> q v q*
  LD w = q.w(), x = q.x(), y = q.y(), z = q.z(), n = w * w + x * x + y * y + z * z;
  LD u[3] = {x, y, z};
  R3 r;
  LD uu = x * x + y * y + z * z;
  LD K[3][3] = {{0, -z, y}, {z, 0, -x}, {-y, x, 0}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = ((i == j ? w * w - uu : 0) + 2 * u[i] * u[j] + 2 * w * K[i][j]) / n;
  return r;
}
static void same(const R3 &a, const R3 &b, LD tol, const std::string &w) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) pbt::near(a.m[i][j], b.m[i][j], tol, w + " (" + std::to_string(i) + "," + std::to_string(j) + ")");
}
static R3 of_mat(const Eigen::Matrix3d &m) { R3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = m(i, j); return r; }
static Eigen::Matrix3d to_mat(const R3 &r) { Eigen::Matrix3d m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = (double) r.m[i][j]; return m; }

static double angle(pbt::Src &s) {
  switch (s.draw(5)) {
    case 0: return s.integer(-8, 8) * M_PI / 4;
    case 1: return s.scaled(-10, 0);
    case 2: return s.uniform(-20, 20);
    default: return s.uniform(-M_PI, M_PI);
  }
}
static double pitch(pbt::Src &s) {
  double h = M_PI / 2;
  switch (s.draw(6)) {
    case 0: return s.boolean() ? h : -h;
    case 1: return (s.boolean() ? 1 : -1) * (h - s.positive(-17, -2));
    case 2: return s.integer(-4, 4) * M_PI / 4;
    case 3: return s.scaled(-10, 0);
    default: return s.uniform(-h, h);
  }
}
// Closeness to gimbal lock amplifies rounding in roll and yaw, but not beyond 1e-6 in the rotation.
static LD lock_tol(const R3 &r) {
  LD cp = std::sqrt(r.m[2][1] * r.m[2][1] + r.m[2][2] * r.m[2][2]);
  return cp > 1e-5L ? 100 * (LD) pbt::EPS / cp : 1e-6L;
}
static void check_all(pbt::Src &s, const R3 &ref, const Eigen::Matrix3d &R, const Eigen::Quaterniond &q, LD tol0) {
  LD lt = lock_tol(ref);
  if (lt > 1e-9L) s.label("near gimbal lock");
  tol0 += 20 * pbt::EPS;
  same(of_mat(quaternionToRotationMatrix(q)), ref, tol0, "quaternion -> matrix");
  Eigen::Quaterniond q2 = RotationMatrixToQuaternion(R);
  pbt::near(q2.norm(), 1, tol0, "norm of the quaternion of a matrix");
  same(of_quat(q2), ref, tol0, "matrix -> quaternion");
  for (int k = 0; k < 2; ++k) {
    Eigen::Vector3d e = k ? quaternionToEulerAnglesZYX(q) : rotationMatrixToEulerAnglesZYX(R);
    const char *nm = k ? "quaternion -> Euler angles" : "matrix -> Euler angles";
    CHECK(std::isfinite(e(0)) && std::isfinite(e(1)) && std::isfinite(e(2)), nm << " gives " << e(0) << " " << e(1) << " " << e(2));
    CHECK(std::fabs(e(0)) <= M_PI && std::fabs(e(1)) <= M_PI / 2 && std::fabs(e(2)) <= M_PI, nm << " out of range: " << e(0) << " " << e(1) << " " << e(2));
    same(of_euler(e), ref, tol0 + lt, nm);
    same(of_mat(eulerAnglesZYXToRotationMatrix(e)), ref, tol0 + lt, std::string(nm) + " -> matrix");
    same(of_quat(eulerAnglesZYXToQuaternion(e)), ref, tol0 + lt, std::string(nm) + " -> quaternion");
  }
}

TARGET(from_euler, 80000) {
  Eigen::Vector3d e(angle(s), s.chance(10) ? angle(s) : pitch(s), angle(s));
  s.show("euler", std::vector<double>{e(0), e(1), e(2)});
  R3 ref = of_euler(e);
  int nz = (std::fabs(std::sin(e(0))) > 1e-9) + (std::fabs(std::sin(e(1))) > 1e-9) + (std::fabs(std::sin(e(2))) > 1e-9);
  s.nontrivial(nz >= 2);
  Eigen::Matrix3d R = eulerAnglesZYXToRotationMatrix(e);
  Eigen::Quaterniond q = eulerAnglesZYXToQuaternion(e);
  LD tol = 20 * pbt::EPS;
  same(of_mat(R), ref, tol, "Euler angles -> matrix");
  pbt::near(q.norm(), 1, tol, "norm of the quaternion of Euler angles");
  same(of_quat(q), ref, tol, "Euler angles -> quaternion");
  check_all(s, ref, R, q, tol);
  // inside the principal domain, away from the lock, the angles themselves come back
  if (std::fabs(e(0)) < 3.14 && std::fabs(e(2)) < 3.14 && std::fabs(e(1)) < 1.57) {
    LD lt = 200 * (LD) pbt::EPS / std::cos((LD) e(1)) / std::cos((LD) e(1));
    Eigen::Vector3d a = rotationMatrixToEulerAnglesZYX(R), b = quaternionToEulerAnglesZYX(q);
    for (int i = 0; i < 3; ++i) {
      pbt::near(a(i), e(i), lt, "Euler -> matrix -> Euler");
      pbt::near(b(i), e(i), lt, "Euler -> quaternion -> Euler");
    }
    s.label("principal domain");
  }
}

TARGET(from_quaternion, 80000) {
  double c[4];
  int kind = (int) s.draw(5);
  LD n = 0;
  do {
    for (auto &x: c) switch (kind) {
      case 0: x = (double) s.integer(-1, 1); break;
      case 1: x = s.chance(30) ? 0. : s.uniform(-1, 1); break;
      case 2: x = s.scaled(-9, 0); break;
      default: x = s.uniform(-1, 1);
    }
    if (kind == 4) {  // exactly or nearly locked: pitch 90 means w*y - x*z = +-1/2 (norm 1)
      double t = s.uniform(-M_PI, M_PI), sg = s.boolean() ? 1 : -1, d = s.chance(50) ? 0 : s.scaled(-17, -3);
      c[0] = std::cos(t) + d; c[2] = sg * std::cos(t); c[1] = -sg * std::sin(t) + (s.boolean() ? d : 0); c[3] = std::sin(t);
    }
    n = 0;
    for (double x: c) n += (LD) x * x;
    if (n == 0) { c[0] = 1; n = 1; }
  } while (n == 0);
  n = std::sqrt(n);
  Eigen::Quaterniond q((double) (c[0] / n), (double) (c[1] / n), (double) (c[2] / n), (double) (c[3] / n));
  s.show("q(wxyz)", std::vector<double>{q.w(), q.x(), q.y(), q.z()});
  s.nontrivial((q.x() != 0) + (q.y() != 0) + (q.z() != 0) >= 2);
  R3 ref = of_quat(q);
  Eigen::Matrix3d R = to_mat(ref);
  check_all(s, ref, R, q, 20 * pbt::EPS);
  // q and -q are the same rotation
  Eigen::Quaterniond mq(-q.w(), -q.x(), -q.y(), -q.z());
  same(of_mat(quaternionToRotationMatrix(mq)), of_mat(quaternionToRotationMatrix(q)), 0, "q and -q");
  Eigen::Matrix3d I = quaternionToRotationMatrix(q).transpose() * quaternionToRotationMatrix(q);
  same(of_mat(I), R3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, 40 * pbt::EPS, "the matrix of a quaternion is not orthogonal");
}
