// C26: the headers can be used alone, in any order, in several translation units, with and without assertions.
#include "pbt.h"
#include "MathUtils/MathUtilsBoost.h"
#include "MathUtils/EigenDense.h"
#include "MathUtils/thirdparty/linterp.h"
#include <ftw.h>
PBT_PROPERTY("C26",
             "programs of 1 to 5 translation units, each including 1 to 5 of the headers in a random order (some of them twice, some after headers of the standard library) and using each of them, compiled with g++ or clang++, with or without "
             "assertions, linked and run; what they print is compared with what the same calls give in a single translation unit that includes everything; non-trivial: two units that share a header, or a unit led by a header that is not "
             "an umbrella header")

static std::vector<double> *SINK;
static void out(double x) { SINK->push_back(x); }
static void outb(bool x) { out(x ? 1 : 0); }
template<class V> static void outv(const V &v) { out((double) v.size()); for (long i = 0; i < (long) v.size(); ++i) out(v[i]); }
template<class M> static void outm(const M &m) { out(m.rows()); out(m.cols()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) out(m(i, j)); }
// the same helpers for the generated programs
static const char *PRELUDE = R"(
void out(double);
namespace mathutils {}
static inline void outb(bool x) { out(x ? 1 : 0); }
template<class V> static void outv(const V &v) { out((double) v.size()); for (long i = 0; i < (long) v.size(); ++i) out(v[i]); }
template<class M> static void outm(const M &m) { out(m.rows()); out(m.cols()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) out(m(i, j)); }
)";
struct Snip { const char *header, *name, *decl, *code; void (*run)(); };
static std::vector<Snip> &snips() { static std::vector<Snip> v; return v; }
struct Reg { Reg(Snip s) { snips().push_back(s); } };
using namespace mathutils;
#define SNIP(header, name, ...) static void name() { __VA_ARGS__ } static Reg reg_##name({header, #name, "", #__VA_ARGS__, name});
// a class of the user that a snippet needs, at namespace scope
#define DECL(name, ...) __VA_ARGS__ static const char *decl_##name = #__VA_ARGS__;
#define SNIPD(header, name, d, ...) static void name() { __VA_ARGS__ } static Reg reg_##name({header, #name, decl_##d, #__VA_ARGS__, name});

SNIP("Constants.h", constants, out(MU_PI); out(MU_2PI); out(MU_PI_180); out(MU_180_PI); out(MU_KNOT); out(MU_RPM2RADS); out(MU_SQRT2_2); out(MU_1_4PI); out(MU_JJ.imag()); out(MU_ONE_DAY);)
SNIP("Unit.h", unit, out(convert_velocity_unit(3.5, KNOT, KMH)); out(convert_frequency(7.25, RPM, HERTZ)); out(convert_frequency(2.5, S, RADS)); out(KNOT2KMH(4.75)); out(RADS2S(1.5));
     std::vector<double> v{10.5, -370.25}; deg2rad(v); outv(v); std::vector<double> w(2); rad2deg(v, w); outv(w); kt2ms(v, w); outv(w);)
SNIP("Angles.h", angles, out(Normalize_0_360(-370.75)); out(Normalize__180_180(190.5)); out(Normalize_0_2PI(-0.6)); out(Normalize__PI_PI(4.25)); out(modulo2pi(7.5)); out(modulo360(725.5)); out(STRING2ANGLE("DEG") == DEG);)
SNIP("Check.h", check, outb(IsClose(1., 1. + 1e-6)); outb(IsClose(1.25, 1.75)); outb(IsClose(-0.25, 0.5)); outb(IsClose(std::vector<double>{1.5, 2.5}, std::vector<double>{1.5, 2.75})); outb(is_odd(7)); outb(is_even(7));
     AssertIsClose(2.5, 2.5); AssertIsClose(std::vector<double>{1.}, std::vector<double>{1.});)
SNIP("Maths.h", maths, out(sgn(-2.5)); out(Saturate(3.75, -1.25, 2.5)); out(SgnSqrt(-0.64)); out(SgnSqrt(2.25)); out(sgn(0.)); out(Saturate(-7L, -3L, 5L));)
SNIP("VectorGeneration.h", generation, outv(linspace<double>(-1.25, 2.5, 7)); outv(logspace<double>(-1.5, 1.25, 4)); outv(arange<double>(0.5, 3.25, 0.75)); outv(logspace<double>(0.5, 2.25, 3, 2.5));)
SNIP("StdVector.h", stdvector, std::vector<double> a{1.5, -2.25, 0.75}; std::vector<double> b{0.5, 4.25, -1.125}; outv(Add(a, b)); outv(AddScalar(a, 0.25)); out(Sum(a)); outv(Minus(a, b)); outv(Mult(a, b)); outv(Divide(a, b));
     Scale(a, 1.5); outv(a); Negate(a); outv(a); std::vector<double> c{0.25, 2.75}; Pow(c, 1.5); outv(c);)
SNIP("Complex.h", complex_, std::vector<std::complex<double>> z{{1.5, -0.75}, {-2.25, 0.5}, {0.25, 3.5}}; outv(Real(z)); outv(Imag(z)); outv(Amplitude(z)); outv(Phase(z)); outv(Phase(z, DEG));)
SNIP("Functions.h", functions, std::vector<double> x{-1.5, -0.5, 0., 0.5, 1.5, 2.25}; outv(Sinc(x)); outv(Sinc<double>(-1.5, 2.5, 5)); outv(Heaviside(x, 0.5)); outv(Door(x, -0.75, 1.75, 2.5)); outv(Ramp(x, -0.5, 1.5, 0.25, 3.75));
     std::vector<double> g{0., 0.25, 0.5, 0.75, 1.}; outv(Dirac(g, 0.5, 2.5)); outv(Dirac(g, 0.3));)
SNIP("Polynomial.h", polynomial, std::vector<double> a{1.5, -0.25, 0.75, 2.125}; out(Horner<double>(a, 1.75)); out(Horner_derivative<double>(a, -0.625));)
SNIP("Integration1d.h", integration1d, std::vector<double> y{0.5, 1.75, -0.25, 2.5}; Integrate1d<double> I(y, -0.5, 2.5, 4); out(I.Get()); double h = 0.25; out(Trapz(y, h)); out(Trapz(std::vector<double>{0., 0.5, 2.25, 2.75}, y));
     Integrate1d<double> J([](double t) { return t * t; }, 0., 1.5, 200); out(J.Get()); J.SetXmax(2.25); out(J.Get()); out(J.GetXmax());)
SNIP("Convolution.h", convolution, boost::circular_buffer<double> s(4); s.push_front(0.5); s.push_front(-1.25); s.push_front(2.75); s.push_front(0.125); std::vector<double> k{1.5, 0.75, -0.25, 0.5}; out(NaiveConvolution(k, s, 0.25));
     out(NaiveConvolution(k, s, 0.25, false)); Convolution<double> c(0.5, k); c.SetKernel(0.25, k);)
SNIP("Spline.h", spline, std::vector<double> x{0., 0.75, 1.5, 2.75, 3.5}; std::vector<double> y{0.5, -1.25, 2.5, 0.25, 1.125}; Spline<double, 1, 3> s(x, y); out(s(0.5)); out(s(2.25)); out(s(3.5));)
SNIP("Interp1d.h", interp1d, auto x = std::make_shared<std::vector<double>>(std::vector<double>{0., 0.75, 1.5, 2.75, 3.5}); auto y = std::make_shared<std::vector<double>>(std::vector<double>{0.5, -1.25, 2.5, 0.25, 1.125});
     for (auto m: {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE}) { std::unique_ptr<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(m)); p->Initialize(x, y); out((*p)(0.5)); outv((*p)(std::vector<double>{1.25, 3.25})); })
SNIP("Interp2d.h", interp2d, auto x = std::make_shared<std::vector<double>>(std::vector<double>{0., 0.75, 1.5}); auto y = std::make_shared<std::vector<double>>(std::vector<double>{-1., 0.5});
     auto d = std::make_shared<std::vector<double>>(std::vector<double>{0.5, 1.25, -0.75, 2.5, 0.25, 1.125}); std::unique_ptr<Interp2d<double>> p(Interp2d<double>::MakeInterp2d(LINEAR)); p->Initialize(x, y, d); out((*p)(0.5, 0.25));
     outv((*p)(std::vector<std::vector<double>>{{1.25, -0.5}, {0.25, 0.25}}));)
SNIP("LookupTable1D.h", table1d, LookupTable1D<double, double> t(LINEAR); t.SetX({0., 0.75, 1.5}); outb(t.AddY("a", {0.5, 1.25, -0.75})); outb(t.AddY("b", {2.5, 0.25, 1.125})); outb(t.AddY("a", {0., 0., 0.})); out(t.Eval("b", 1.25));
     outv(t.Eval("a", std::vector<double>{0.25, 0.5})); out(t.GetNbSeries()); out(t.GetXmin("a")); out(t.GetXmax("b")); LookupTable1D<double, double> u(std::move(t)); out(u.Eval("a", 1.25));)
SNIP("LookupTable2D.h", table2d, LookupTable2d<double> t; t.SetX({0., 0.75, 1.5}); t.SetY({-1., 0.5}); outb(t.AddData("a", {0.5, 1.25, -0.75, 2.5, 0.25, 1.125})); out(t.Eval("a", 0.5, 0.25)); out(t.Eval("a", std::vector<double>{1.25, 0.125}));
     outb(t.HasSerie("b")); out(t.GetNbSample());)
SNIP("Vector2d.h", vector2d, Vector2d<double> v(1.5, -0.75); outv(v); out(v.infNorm()); v.ProjectLocalOnNED(35., DEG); outv(v); out(v.ProjectOnLocalXAxis(0.5, RAD)); outb(v.IsEqual(v)); Vector2d<double> w = 2.5 * v; outv(w);)
SNIP("Vector3d.h", vector3d, Vector3d<double> v(1.5, -0.75, 2.25); outv(v); out(v.infNorm()); outm(outer(v)); out(inner(v, v)); out(v.GetProjectedAngleAroundX(DEG)); v.Normalize(); outb(v.IsUnit()); outv(v); Vector3d<double> w = v.cross(2.5 * v); outv(w);)
SNIP("Vector6d.h", vector6d, Vector6d<double> v(1.5, -0.75, 2.25, 0.5, -0.125, 3.5); outv(v); out(v.infNorm()); outm(outer(v)); out(inner(v, v)); v.SetNull(); outv(v);)
SNIP("VectorN.h", vectorn, VectorN<double> v(4); v << 1.5, -0.75, 2.25, 0.5; outm(GetMatrixSquare(v)); outm(v.GetDiagonalMatrix()); v.Sort(true); outv(v); v.Reverse(); outv(v); out(v.infNorm()); v.SetOnes(); outv(v);)
SNIP("EigenDense.h", eigendense, Eigen::Matrix3d m; m << 2.5, 0.25, -0.75, 0.5, 3.5, 0.125, 1.5, -0.25, 4.75; out(m.determinant()); outm(m.inverse().eval());)
SNIP("Matrix.h", matrix, MatrixMN<double> m(3, 3); m << 4.5, 0.25, -0.75, 0.25, 3.5, 0.125, -0.75, 0.125, 4.75; MatrixMN<double> L(3, 3); m.GetCholeskyDecomposition(L); outm(L); outb(m.IsSymmetric()); outb(m.IsOrthogonal()); outb(m.IsSquare());
     outb(m.IsIdentity()); outm(Transpose(m)); outm(m.GetDiag()); outm(m.GetRow(1)); m.at(1, 2) = 0.25; outm(MakeSymmetricFromUpper(m)); outb(m.IsEqual(m)); out(m.GetNbCols()); const MatrixMN<double> &c = m; out(c.at(2, 1));)
SNIP("Matrix33.h", matrix33, Matrix33<double> m; m << 4.5, 0.25, -0.75, 0.25, 3.5, 0.125, -0.75, 0.125, 4.75; Matrix33<double> Q; Matrix33<double> R; m.GetQRDecomposition(Q, R); outm((Q * R).eval()); Matrix33<double> L; m.GetCholeskyDecomposition(L); outm(L);
     outm(m.GetInverse()); outb(m.IsSymmetric()); outb(m.IsOrthogonal()); outm(Transpose(m)); outv(m.GetColumn(1));)
SNIP("Matrix66.h", matrix66, Matrix66<double> m; m.SetIdentity(); m.at(1, 2) = 0.5; m.at(2, 1) = 0.5; m.at(4, 4) = 2.25; Matrix66<double> L; m.GetCholeskyDecomposition(L); outm(L); outm(m.GetInverse()); outb(m.IsSymmetric()); outb(m.IsIdentity()); outm(Transpose(m));
    )
SNIP("Transform3d.h", transform3d, Vector3d<double> v(1.5, 0.25, -0.5); outv(v);)
SNIP("Geometry.h", geometry, Eigen::Vector3d e(0.25, -0.5, 1.25); auto q = eulerAnglesZYXToQuaternion(e); out(q.w()); out(q.x()); auto r = eulerAnglesZYXToRotationMatrix(e); outm(r); Eigen::Vector3d f = rotationMatrixToEulerAnglesZYX(r); outv(f);
     Eigen::Vector3d g = quaternionToEulerAnglesZYX(q); outv(g); outm(quaternionToRotationMatrix(q)); out(RotationMatrixToQuaternion(r).z());)
SNIP("FFT.h", fft, FFT<double> f; std::vector<double> s{0.5, -1.25, 2.75, 0.125, 1.5, -0.25, 3.5, 0.75}; std::vector<std::complex<double>> F; f.fft(F, s); for (auto &z: F) { out(z.real()); out(z.imag()); } std::vector<double> b; f.ifft(b, F); outv(b); out(Pow2(5));)
SNIP("QuadratureTables.h", quadraturetables, QuadratureTables t; t.Set_table({0.25, 0.5}, {0.125, 0.25}, {0.75, 0.25}); outv(t.alpha(1)); outv(t.weight(1)); out(t.get_size_tables());)
DECL(integrand, class MyIntegrand : public mathutils::Integrand<double> { public: double Evaluate(const mathutils::Vector3d<double> &x) const override { return 0.5 + x(0) * x(1) - 2.25 * x(2); } };)
SNIPD("Integrand.h", integrand, integrand, MyIntegrand f; Vector3d<double> p(0.5, 1.25, -0.75); out(f.Evaluate(p));)
SNIPD("Integration2d.h", integration2d, integrand, MyIntegrand f; Integrand<double> *p = &f; out(p->Evaluate(Vector3d<double>(0.25, 0.5, 0.75))); out(sizeof(Integration2d<double>) > 0);)
SNIPD("Integration2dTriangle.h", integration2dtriangle, integrand, MyIntegrand f; for (int o = 1; o < 9; ++o) { Integration2dTriangle<double> I(&f, o); out(I.Compute(Vector3d<double>(0., 0.25, 0.5), Vector3d<double>(1.5, 0., 0.25), Vector3d<double>(0.75, 2.25, -0.5))); })
SNIP("PowerSeries1d.h", powerseries1d, VectorN<double> b(3); b << 1.5, -0.25, 0.75; PowerSeries1dClosed<double> p(b, 0.5, 2.75); out(p.Evaluate(1.25)); out(p.Evaluate_derivative_x(2.25)); PowerSeries1dOpened<double> q(b, 0.5); out(q.Evaluate(4.25)); out(q.Evaluate_derivative_x(1.25));)
SNIP("PowerSeries2d.h", powerseries2d, MatrixMN<double> b(2, 3); b << 1.5, -0.25, 0.75, 0.5, 2.25, -1.125; PowerSeries2dClosed<double> p(b, 0.5, 2.75, -1., 0.5); out(p.Evaluate(1.25, 0.25)); out(p.Evaluate_derivative_x(2.25, -0.5)); out(p.Evaluate_derivative_y(2.25, -0.5));
     PowerSeries2dOpened<double> q(b, 0.5, 1.5); out(q.Evaluate(4.25, 2.25)); PowerSeries2dMixed<double> r(b, 0.5, 2.75, 1.5); out(r.Evaluate(1.75, 2.25));)
SNIP("PowerSeries3d.h", powerseries3d, MatrixMN<double> b(2, 2); b << 1.5, -0.25, 0.75, 0.5; MatrixMN<double> c(2, 2); c << 0.25, 2.25, -1.125, 0.375; std::vector<MatrixMN<double>> bb{b, c}; PowerSeries3dClosed<double> p(bb, 0.5, 2.75, -1., 0.5, 0.25, 1.75);
     out(p.Evaluate(1.25, 0.25, 0.75)); out(p.Evaluate_derivative_x(1.25, 0.25, 0.75)); out(p.Evaluate_derivative_y(1.25, 0.25, 0.75)); out(p.Evaluate_derivative_z(1.25, 0.25, 0.75)); out(p.order_z());)
SNIP("BoostFunctions.h", boostfunctions, out(Cyl_Bessel_first_kind<int, double, double>(1, 2.25)); out(Cyl_modified_Bessel_second_kind<int, double, double>(0, 1.75)); out(Cyl_Bessel_second_kind_derivative<int, double, double>(2, 1.25));
     out(Legendre_polynomial<int, double>(4, 0.375)); out(Factorial<int, double>(6)); out(Struve_zero_order(2.75)); out(Struve_first_order(7.25)); out(Struve_zero_order_derivative(1.25)); out(Chebyshev_polynomial<int, double>(5, 0.375));
     out(Chebyshev_polynomial_derivative<int, double>(5, 0.375)); out(Ei(1.25)); out(Ei_approximation(7.5)); out(expEi(30.)); out(E1(0.75)); out(E1_approximation(2.5)); out(E1_approximation(0.5)); out(Ei_approximation(0.5));)
DECL(f1, class MyFunction1 : public mathutils::Function1d<double> { public: double Evaluate(const double &x) const override { return 1.5 + 0.25 * x - 0.125 * x * x; } };)
DECL(f2, class MyFunction2 : public mathutils::Function2d<double> { public: double Evaluate(const double &x, const double &y) const override { return 1.5 + 0.25 * x * y - 0.125 * x * x; } };)
DECL(f3, class MyFunction3 : public mathutils::Function3d<double> { public: double Evaluate(const double &x, const double &y, const double &z) const override { return 1.5 + 0.25 * x * y - 0.125 * x * z; } };)
SNIPD("ChebyshevSeries1d.h", chebyshev1d, f1, MyFunction1 f; ChebyshevSeries1dClosed<double> c(&f, 0.5, 2.75, 4); c.Compute_ai(); out(c.Evaluate(1.25)); out(c.Evaluate_derivative_x(2.25)); auto b = c.Compute_bi(); out(b.size()); ChebyshevSeries1dOpened<double> o(&f, 0.5, 4);
      o.Compute_ai(); out(o.Evaluate(3.25));)
SNIPD("ChebyshevSeries2d.h", chebyshev2d, f2, MyFunction2 f; ChebyshevSeries2dClosed<double> c(&f, 0.5, 2.75, -1., 0.75, 3, 3); c.Compute_aij(); out(c.Evaluate(1.25, 0.25)); out(c.Evaluate_derivative_x(2.25, -0.5)); outm(c.Compute_bij());)
SNIPD("ChebyshevSeries3d.h", chebyshev3d, f3, MyFunction3 f; ChebyshevSeries3dClosed<double> c(&f, 0.5, 2.75, -1., 0.75, 1.25, 1.75, 3, 2, 2); c.Compute_aijk(); out(c.Evaluate(1.25, 0.25, 1.5)); out(c.Evaluate_derivative_z(2.25, -0.5, 1.5)); out(c.Compute_bijk().size());)
SNIP("RegularGridInterpolator.h", gridinterpolator, RegularGridInterpolator<double, 2> g; g.AddCoord({0., 0.75, 1.5}); g.AddCoord({-1., 0.5}); boost::multi_array<double, 2> a(boost::extents[3][2]); for (int i = 0; i < 6; ++i) a.data()[i] = 0.25 * i * i - 1.5; g.AddVar(a);
     out(g.Interp({0.5, 0.25})); out(g.Interp({1.25, -0.75})); RegularGridInterpolator<double, 2> h(g); out(h.Interp({0.5, 0.25})); out(g.GetCoordMaxVal(0)); outb(g.IsValid()); out(g.EvalAtIndice({2, 1}));)
SNIP("RegularGridNearest.h", gridnearest, RegularGridNearest<double, 2> g; g.AddCoord({0., 0.75, 1.5}); g.AddCoord({-1., 0.5}); boost::multi_array<double, 2> a(boost::extents[3][2]); for (int i = 0; i < 6; ++i) a.data()[i] = 0.25 * i * i - 1.5; g.AddVar(a);
     out(g.Nearest({0.5, 0.25}).val()); out(g.GetData({1.25, -0.75})); out(g.GetSurroundingGridNodes({0.5, 0.25}).size());)
SNIP("thirdparty/linterp.h", linterp, double x[] = {0., 0.75, 1.5}; double y[] = {-1., 0.5}; double *gr[] = {x, y}; int len[] = {3, 2}; double f[] = {0.5, 1.25, -0.75, 2.5, 0.25, 1.125}; double px[] = {0.5, 1.25}; double py[] = {0.25, -0.75}; double *xi[] = {px, py}; double r[2];
     linterp_simplex_2(gr, len, f, 2, xi, r); out(r[0]); out(r[1]); InterpMultilinear<2, double> m(gr, len, f, f + 6); double p[] = {0.5, 0.25}; out(m.interp(p)); linterp_simplex_1(gr, len, f, 2, xi, r); out(r[0]);)
SNIP("MathUtils.h", umbrella, out(Normalize_0_360(-370.75)); Vector3d<double> v(1.5, -0.75, 2.25); out(v.infNorm()); outv(linspace<double>(-1.25, 2.5, 7)); FFT<double> f; out(sgn(-2.5)); MatrixMN<double> m(2, 2); m << 2.5, 0.5, 0.5, 3.25; outm(m.GetInverse());)
SNIP("MathUtilsBoost.h", umbrellaboost, out(Normalize_0_360(-370.75)); out(Ei(1.25)); RegularGridInterpolator<double, 2> g; out(g.GetDimension()); outv(linspace<double>(-1.25, 2.5, 7));)

static std::string repo() { const char *r = getenv("VERIF_REPO"); return r ? r : "/repo"; }
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
struct Scratch {
  std::string d;
  Scratch() {
    char t[] = "/tmp/verif-headers-XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); _exit(97); }
    d = t;
  }
  ~Scratch() { nftw(d.c_str(), rmcb, 32, FTW_DEPTH | FTW_PHYS); }
};
static std::string sh(const std::string &cmd, int &rc) {
  FILE *f = popen(("( " + cmd + " ) 2>&1").c_str(), "r");
  std::string o;
  char b[4096];
  size_t n;
  while (f && (n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
  rc = f ? pclose(f) : -1;
  return o;
}
static std::string errors(const std::string &o) {
  size_t i = o.find("error: ");
  if (i == std::string::npos) i = o.find("multiple definition");
  if (i == std::string::npos) i = o.find("undefined reference");
  if (i == std::string::npos) return o.substr(0, 300);
  size_t b = o.rfind('\n', i);
  b = b == std::string::npos ? 0 : b + 1;
  return o.substr(b, 300);
}
static bool killed(const std::string &o) { return o.find("Killed") != std::string::npos || o.find("internal compiler error") != std::string::npos || o.find("No space") != std::string::npos || o.find("virtual memory") != std::string::npos; }

static void program(pbt::Src &s, int units) {
  Scratch w;
  const auto &S = snips();
  static const char *STD[] = {"cmath", "math.h", "complex", "vector", "string", "iostream", "algorithm", "cstdlib", "Eigen/Dense", "limits"};
  std::vector<std::vector<int>> hs(units);
  bool clang = s.chance(30), ndebug = s.chance(40);
  std::string cc = std::string(clang ? "clang++" : "g++") + " -std=c++17 -O0 -w " + (ndebug ? "-DNDEBUG " : "") + "-I" + repo() + "/src -isystem /usr/include/eigen3 ";
  s.desc << (clang ? "clang++" : "g++") << (ndebug ? " -DNDEBUG" : "") << "; ";
  std::vector<double> expected, one;
  bool shared = false, led = false;
  std::string objs;
  for (int u = 0; u < units; ++u) {
    std::string src;
    s.desc << "unit " << u << ": ";
    if (s.chance(25)) { const char *h = STD[s.draw(10)]; src += "#include <" + std::string(h) + ">\n"; s.desc << "<" << h << "> "; }
    int n = (int) s.integer(1, s.chance(50) ? 2 : 5);
    for (int k = 0; k < n; ++k) {
      int h;
      if (u > 0 && s.chance(40)) { h = hs[u - 1][s.draw(hs[u - 1].size())]; shared = true; }
      else h = (int) s.draw(S.size());
      if (std::find(hs[u].begin(), hs[u].end(), h) == hs[u].end()) hs[u].push_back(h);
      src += "#include \"MathUtils/" + std::string(S[h].header) + "\"\n";
      s.desc << S[h].header << " ";
    }
    if (std::string(S[hs[u][0]].header).find("MathUtils") != 0) led = true;
    src += PRELUDE;
    std::string calls;
    std::vector<std::string> decls;
    src += "namespace {\n";
    for (int h: hs[u]) {
      if (*S[h].decl && std::find(decls.begin(), decls.end(), S[h].decl) == decls.end()) { decls.push_back(S[h].decl); src += std::string(S[h].decl) + "\n"; }
      src += "void use_" + std::string(S[h].name) + "() { using namespace mathutils; " + S[h].code + " }\n";
      calls += " use_" + std::string(S[h].name) + "();";
      one.clear();
      SINK = &one;
      S[h].run();
      expected.insert(expected.end(), one.begin(), one.end());
    }
    src += "}\nvoid unit" + std::to_string(u) + "() {" + calls + " }\n";
    std::string f = w.d + "/u" + std::to_string(u);
    std::ofstream(f + ".cpp") << src;
    int rc;
    std::string o = sh(cc + "-c " + f + ".cpp -o " + f + ".o", rc);
    if (rc != 0 && killed(o)) _exit(97);
    CHECK(rc == 0, "the unit " << u << " does not compile: " << errors(o));
    objs += f + ".o ";
    s.desc << "; ";
  }
  s.nontrivial(shared || led);
  if (shared) s.label("units that share a header");
  std::string m = "#include <cstdio>\nstatic FILE *F;\nvoid out(double x) { std::fprintf(F, \"%.17g\\n\", x); }\n", c;
  for (int u = 0; u < units; ++u) { m += "void unit" + std::to_string(u) + "();\n"; c += " unit" + std::to_string(u) + "();"; }
  std::ofstream(w.d + "/main.cpp") << m << "int main(int, char **a) { F = std::fopen(a[1], \"w\");" << c << " std::fclose(F); }\n";
  int rc;
  std::string o = sh(cc + w.d + "/main.cpp " + objs + "-o " + w.d + "/x", rc);
  if (rc != 0 && killed(o)) _exit(97);
  CHECK(rc == 0, "the program does not link: " << errors(o));
  sh("timeout 60 " + w.d + "/x " + w.d + "/values", rc);
  CHECK(rc == 0, "the program ended with status " << rc);
  std::vector<double> got;
  std::ifstream is(w.d + "/values");
  for (std::string t; is >> t;) got.push_back(strtod(t.c_str(), nullptr));
  CHECK(got.size() == expected.size(), "the program printed " << got.size() << " values, expected " << expected.size());
  for (size_t i = 0; i < got.size(); ++i) pbt::near(got[i], expected[i], 1e-10L * (1 + std::fabs((long double) expected[i])), "value " + std::to_string(i) + " printed by the program");
}
TARGET_FORK(programs, 25) { program(s, (int) s.integer(1, 5)); }
