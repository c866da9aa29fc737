// C03: one-dimensional interpolators.
#include "pbt.h"
#include "gen.h"
#include "MathUtils/Interp1d.h"
#include <complex>
using namespace mathutils;
using cd = std::complex<double>;
typedef std::complex<long double> cl;
PBT_PROPERTY("C03",
             "strictly increasing tables of 2..400 points (uniform and irregular, offset and scaled), real and complex ordinates, the "
             "three interpolation methods through factory and classes, queries on nodes, next to nodes, between and outside, scalar and vector, and "
             "re-initialisation histories, against an independent piecewise-linear model in long double; non-trivial: at least 3 points "
             "and a query that is not a node, or a query outside the range, or a re-initialised object")

template<class Y> struct Ref;
struct Model {
  std::vector<double> x;
  std::vector<cd> y;
  // value of the piecewise linear function at q (extended by the first/last segment), and tolerance
  cl eval(double q, long double &tol, double eps = pbt::EPS) const {
    size_t n = x.size(), i = 1;
    while (i + 1 < n && q > x[i]) ++i;  // linear scan: segment [i-1,i]
    long double x0 = x[i - 1], x1 = x[i], dx = x1 - x0;
    cl y0(y[i - 1].real(), y[i - 1].imag()), y1(y[i].real(), y[i].imag());
    cl v = y0 + (y1 - y0) * (((long double) q - x0) / dx);
    long double ym = std::max({std::fabs(y0.real()), std::fabs(y1.real()), std::fabs(y0.imag()), std::fabs(y1.imag())});
    long double xm = std::max({std::fabs(x0), std::fabs(x1), std::fabs((long double) q)});
    tol = 8 * eps * (ym * (2 + 4 * xm / dx)) + 1e-300L;
    return v;
  }
};

static std::shared_ptr<const std::vector<double>> sp(const std::vector<double> &v) { return std::make_shared<const std::vector<double>>(v); }
static void cmp(double got, cl want, long double tol, const std::string &w) { pbt::near(got, want.real(), tol, w); }
static void cmp(cd got, cl want, long double tol, const std::string &w) { pbt::nearc(got, want, tol, w); }
template<class Y> std::shared_ptr<const std::vector<Y>> yvec(const Model &m);
template<> std::shared_ptr<const std::vector<double>> yvec<double>(const Model &m) {
  auto v = std::make_shared<std::vector<double>>();
  for (auto &c: m.y) v->push_back(c.real());
  return v;
}
template<> std::shared_ptr<const std::vector<cd>> yvec<cd>(const Model &m) { return std::make_shared<const std::vector<cd>>(m.y); }

static Model gen_model(pbt::Src &s, bool cplx) {
  Model m;
  m.x = gen::grid(s, 2, 400, 4000);
  int n = (int) m.x.size();
  auto re = gen::values(s, n);
  auto im = cplx ? gen::values(s, n) : std::vector<double>(n, 0.);
  for (int i = 0; i < n; ++i) m.y.push_back(cd(re[i], im[i]));
  return m;
}

static const INTERP_METHOD METHODS[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
static const char *MN[] = {"LINEAR", "LINEAR_EXTRAPOLATE", "LINEAR_SATURATE"};

template<class Y>
static void verify(pbt::Src &s, const Interp1d<double, Y> &f, const Model &m, int method, bool &nontriv) {
  CHECK(f.GetXmin() == m.x.front(), "lower end of the range is " << f.GetXmin() << " instead of " << m.x.front());
  CHECK(f.GetXmax() == m.x.back(), "upper end of the range is " << f.GetXmax() << " instead of " << m.x.back());
  int q = (int) s.integer(1, 6);
  std::vector<double> qs;
  for (int k = 0; k < q; ++k) {
    bool out = method != 0 && s.chance(40);
    double x = out ? gen::outside(s, m.x) : gen::inside(s, m.x);
    qs.push_back(x);
    if (out) s.label(x > m.x.back() ? "above" : "below");
    bool node = std::binary_search(m.x.begin(), m.x.end(), x);
    if (node) s.label("node"); else if (!out) s.label("interior");
    if (out || (!node && m.x.size() >= 3)) nontriv = true;
  }
  s.show("queries", qs);
  std::vector<Y> all = f.Eval(qs), all2 = f(qs);
  CHECK(all.size() == qs.size() && all2.size() == qs.size(), "vector evaluation returns " << all.size() << " values for " << qs.size());
  for (int k = 0; k < q; ++k) {
    double x = qs[k], xe = x;
    if (method == 2) xe = std::min(m.x.back(), std::max(m.x.front(), x));
    long double tol;
    cl want = m.eval(xe, tol);
    Y got = f.Eval(x);
    cmp(got, want, tol, std::string(MN[method]) + " at x=" + pbt::str(x));
    CHECK(f(x) == got, "call operator and Eval differ at " << x);
    CHECK(all[k] == got && all2[k] == got, "vector and scalar evaluation differ at " << x);
  }
}

template<class Y>
static void scenario(pbt::Src &s, bool cplx) {
  int method = (int) s.draw(3);
  s.label(MN[method]);
  s.show("method", MN[method]);
  std::unique_ptr<Interp1d<double, Y>> owned;
  Interp1dLinear<double, Y> lin;
  Interp1dLinearExtrapolate<double, Y> ext;
  Interp1dLinearSaturate<double, Y> sat;
  Interp1d<double, Y> *f;
  if (s.boolean()) {
    owned.reset(Interp1d<double, Y>::MakeInterp1d(METHODS[method]));
    f = owned.get();
  } else f = method == 0 ? (Interp1d<double, Y> *) &lin : method == 1 ? (Interp1d<double, Y> *) &ext : &sat;
  // another interpolator, with the data of an earlier round
  std::unique_ptr<Interp1d<double, Y>> other(Interp1d<double, Y>::MakeInterp1d(METHODS[method]));
  Model om;
  int rounds = s.chance(35) ? (int) s.integer(2, 4) : 1;
  bool nontriv = rounds > 1;
  if (rounds > 1) s.label("re-initialised");
  Model m;
  std::shared_ptr<std::vector<double>> px;
  std::shared_ptr<std::vector<Y>> py;
  for (int r = 0; r < rounds; ++r) {
    int how = r > 0 && s.chance(60) ? (int) s.integer(1, 4) : 0;
    if (how == 0) m = gen_model(s, cplx);
    if (how == 1 || how == 3 || how == 4) gen::perturb(s, m.y);
    if (how == 2 || how == 3) gen::perturb_grid(s, m.x);
    if (!cplx) for (auto &c: m.y) c = cd(c.real(), 0);
    auto ny = yvec<Y>(m);
    // a new object for what changed; how == 3, 4: the same objects, whose contents changed
    if (how >= 3 && !s.boolean()) { *px = m.x; *py = *ny; s.label("same objects, new contents"); }
    else {
      if (how != 1 && how != 4) px = std::make_shared<std::vector<double>>(m.x);
      if (how != 2) py = std::make_shared<std::vector<Y>>(*ny);
      if (how) s.label("re-initialised with nearly the same data");
    }
    s.show("how", how);
    s.show("x", m.x);
    s.show("y", m.y);
    f->Initialize(px, py);
    verify<Y>(s, *f, m, method, nontriv);
    if (!om.x.empty() && s.boolean()) {
      s.note("the other object");
      verify<Y>(s, *other, om, method, nontriv);
      verify<Y>(s, *f, m, method, nontriv);
    }
    if (r + 1 < rounds && s.boolean()) { om = m; other->Initialize(sp(m.x), yvec<Y>(m)); }
  }
  s.nontrivial(nontriv);
}
TARGET(real, 60000) { scenario<double>(s, false); }
TARGET(complex, 40000) { scenario<cd>(s, true); }

// every node is reproduced, everywhere in the table
TARGET(all_nodes, 12000) {
  Model m = gen_model(s, false);
  int method = (int) s.draw(3);
  s.show("method", MN[method]);
  s.show("x", m.x);
  s.show("y", m.y);
  s.nontrivial(m.x.size() >= 3);
  std::unique_ptr<Interp1d<double, double>> f(Interp1d<double, double>::MakeInterp1d(METHODS[method]));
  f->Initialize(sp(m.x), yvec<double>(m));
  for (size_t i = 0; i < m.x.size(); ++i) {
    long double tol;
    m.eval(m.x[i], tol);
    pbt::near(f->Eval(m.x[i]), m.y[i].real(), tol, "node " + std::to_string(i));
    // the mid point of each segment
    if (i + 1 < m.x.size()) {
      double q = 0.5 * (m.x[i] + m.x[i + 1]);
      auto w = m.eval(q, tol);
      pbt::near(f->Eval(q), w.real(), tol, "segment " + std::to_string(i));
      long double lo = std::min(m.y[i].real(), m.y[i + 1].real()), hi = std::max(m.y[i].real(), m.y[i + 1].real());
      CHECK(f->Eval(q) >= lo - tol && f->Eval(q) <= hi + tol, "value outside the hull of its neighbours");
    }
  }
}

TARGET(single_precision, 15000) {
  Model m;
  int n = s.size(2, 60);
  auto x = std::make_shared<std::vector<float>>();
  auto y = std::make_shared<std::vector<float>>();
  float cur = (float) s.integer(-20, 20);
  for (int i = 0; i < n; ++i) {
    x->push_back(cur);
    y->push_back((float) s.uniform(-10, 10));
    cur += (float) s.integer(1, 9) * 0.25f;
    m.x.push_back((*x)[i]);
    m.y.push_back((*y)[i]);
  }
  int method = (int) s.draw(3);
  std::unique_ptr<Interp1d<float, float>> f(Interp1d<float, float>::MakeInterp1d(METHODS[method]));
  f->Initialize(x, y);
  float q = (float) gen::inside(s, m.x);
  q = std::min(x->back(), std::max(x->front(), q));
  s.show("x", m.x);
  s.show("q", q);
  s.nontrivial(n >= 3);
  long double tol;
  auto w = m.eval(q, tol, std::numeric_limits<float>::epsilon());
  pbt::near(f->Eval(q), w.real(), tol, "float interpolation");
}

// the plain linear method refuses to extrapolate; the factory refuses the methods that do not exist
TARGET_FORK(rejection, 2000) {
  Model m = gen_model(s, false);
  s.show("x", m.x);
  std::unique_ptr<Interp1d<double, double>> f(Interp1d<double, double>::MakeInterp1d(LINEAR));
  f->Initialize(sp(m.x), yvec<double>(m));
  if (s.chance(5)) {
    s.label("unknown method");
    auto r = pbt::in_child([&] { delete Interp1d<double, double>::MakeInterp1d(BSPLINE); });
    CHECK(r.kind == pbt::ChildResult::THREW || (r.kind == pbt::ChildResult::EXITED && r.code != 0), "unavailable method accepted: " << pbt::str(r));
    return;
  }
  double q = gen::outside(s, m.x);
  s.show("query", q);
  s.label(q > m.x.back() ? "above" : "below");
  s.nontrivial();
  bool vec = s.boolean();
  auto r = pbt::in_child([&] {
    if (vec) {
      std::vector<double> v = {m.x.front(), q, m.x.back()};
      f->Eval(v);
    } else f->Eval(q);
  });
  CHECK(r.kind == pbt::ChildResult::THREW || (r.kind == pbt::ChildResult::EXITED && r.code != 0),
        "evaluation at " << q << " outside [" << m.x.front() << "," << m.x.back() << "] is not refused: " << pbt::str(r));
}
