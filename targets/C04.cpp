// C04: LookupTable1D histories against a model.
// parts: 2
#if defined(PBT_PART) && PBT_PART == 2
#define NDEBUG  // as in a release build; the types differ from the other part, which keeps the assertions
#endif
#include "pbt.h"
#include "gen.h"
#include "MathUtils/LookupTable1D.h"
#include <complex>
using namespace mathutils;
using cd = std::complex<double>;
typedef std::complex<long double> cl;
PBT_PROPERTY("C04",
             "histories of 1..30 operations (set abscissae, add series under fresh and already used names, scalar/vector/all-series evaluation, "
             "range and count queries, move construction, move assignment, self-move, unknown names) on tables of each interpolation method, real and complex "
             "series, against a map-based model; non-trivial: at least two series and an evaluation after a rejected insertion, a move or a change of abscissae")

struct Serie {
  std::vector<double> x;
  std::vector<cd> y;
};
struct ModelTable {
  int method;
  std::vector<double> x;
  bool has_x = false;
  std::map<std::string, Serie> series;
};
static const INTERP_METHOD METHODS[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};

static cl ref(const Serie &m, int method, double q, long double &tol) {
  size_t n = m.x.size(), i = 1;
  if (method == 2) q = std::min(m.x.back(), std::max(m.x.front(), q));
  while (i + 1 < n && q > m.x[i]) ++i;
  long double x0 = m.x[i - 1], x1 = m.x[i], dx = x1 - x0;
  cl y0(m.y[i - 1].real(), m.y[i - 1].imag()), y1(m.y[i].real(), m.y[i].imag());
  long double ym = std::max({std::fabs(y0.real()), std::fabs(y1.real()), std::fabs(y0.imag()), std::fabs(y1.imag())});
  long double xm = std::max({std::fabs(x0), std::fabs(x1), std::fabs((long double) q)});
  tol = 8 * pbt::EPS * (ym * (2 + 4 * xm / dx)) + 1e-300L;
  return y0 + (y1 - y0) * (((long double) q - x0) / dx);
}
static void cmp(double got, cl want, long double tol, const std::string &w) { pbt::near(got, want.real(), tol, w); }
static void cmp(long double got, cl want, long double tol, const std::string &w) { pbt::near(got, want.real(), tol, w); }
static void cmp(cd got, cl want, long double tol, const std::string &w) { pbt::nearc(got, want, tol, w); }
static void conv(const std::vector<cd> &v, std::vector<double> &o) { for (auto &c: v) o.push_back(c.real()); }
static void conv(const std::vector<cd> &v, std::vector<long double> &o) { for (auto &c: v) o.push_back(c.real()); }
static void conv(const std::vector<cd> &v, std::vector<cd> &o) { o = v; }

static double query(pbt::Src &s, const Serie &m, int method) {
  return method != 0 && s.chance(30) ? gen::outside(s, m.x) : gen::inside(s, m.x);
}

template<class Y>
static void history(pbt::Src &s) {
  const bool cplx = std::is_same<Y, cd>::value;
  typedef LookupTable1D<double, Y> Table;
  // two slots so that tables can be moved around
  struct Slot { std::unique_ptr<Table> t; ModelTable m; };
  std::vector<Slot> slots(2);
  auto fresh = [&](Slot &sl) {
    sl.m = ModelTable();
    sl.m.method = (int) s.draw(3);
    sl.t.reset(new Table(METHODS[sl.m.method]));
  };
  fresh(slots[0]);
  fresh(slots[1]);
  std::vector<std::string> names = gen::names(s, {"cx", "cy", "", "a longer name of a series", "CX", "cx ", "n1", "n2", "n3", "n4"});
  int ops = s.size(2, 30, 120);
  bool disturbed = false, nontriv = false;
  for (int k = 0; k < ops; ++k) {
    int w = (int) s.draw(2);
    Slot &sl = slots[w];
    ModelTable &m = sl.m;
    switch (s.draw(12)) {
      case 0: {  // SetX
        if (!m.series.empty()) { disturbed = true; s.label("abscissae changed after a series"); }
        if (m.has_x && s.boolean()) gen::perturb_grid(s, m.x);
        else m.x = gen::grid(s, 2, 60, 1200);
        m.has_x = true;
        s.desc << "SetX(" << w << "," << pbt::str(m.x) << ") ";
        sl.t->SetX(m.x);
        break;
      }
      case 1:
      case 2:
      case 3:
      case 4: {  // AddY
        if (!m.has_x) {
          m.x = gen::grid(s, 2, 60, 1200);
          m.has_x = true;
          s.desc << "SetX(" << w << "," << pbt::str(m.x) << ") ";
          sl.t->SetX(m.x);
        }
        std::string name = s.pick(names);
        Serie se;
        se.x = m.x;
        auto re = gen::values(s, (int) m.x.size());
        auto im = cplx ? gen::values(s, (int) m.x.size()) : std::vector<double>(m.x.size(), 0.);
        for (size_t i = 0; i < re.size(); ++i) se.y.push_back(cd(re[i], im[i]));
        std::vector<Y> y;
        conv(se.y, y);
        bool expect = !m.series.count(name);
        s.desc << "AddY(" << w << ",'" << name << "'," << pbt::str(y) << ") ";
        bool got = sl.t->AddY(name, y);
        CHECK(got == expect, "adding the series '" << name << "' returned " << got << ", the name is " << (expect ? "free" : "already used"));
        if (expect) m.series[name] = se;
        else { disturbed = true; s.label("duplicate name rejected"); }
        break;
      }
      case 5: {  // move construction into the same slot
        s.desc << "move-construct(" << w << ") ";
        std::unique_ptr<Table> n(new Table(std::move(*sl.t)));
        sl.t = std::move(n);
        disturbed = true;
        s.label("moved");
        break;
      }
      case 6: {  // move assignment to the other slot
        s.desc << "move-assign(" << w << "->" << 1 - w << ") ";
        Slot &dst = slots[1 - w];
        *dst.t = std::move(*sl.t);
        dst.m = m;
        fresh(sl);
        disturbed = true;
        s.label("moved");
        break;
      }
      case 7: {  // unknown name
        std::string name = s.pick(names) + "?";
        double q = s.scaled(-2, 2);
        bool threw = false;
        try { sl.t->Eval(name, q); } catch (const std::exception &) { threw = true; }
        CHECK(threw, "evaluating an unknown series does not fail");
        s.label("unknown name");
        break;
      }
      case 8: {  // all-series evaluation at one abscissa inside every series
        if (m.series.empty()) break;
        const Serie *any = &m.series.begin()->second;
        bool same = true;
        for (auto &e: m.series) same &= e.second.x == any->x;
        if (!same && m.method == 0) break;
        double q = query(s, *any, same ? m.method : 1);
        if (!same) q = any->x.front();
        s.desc << "EvalAll(" << w << "," << q << ") ";
        auto r = sl.t->template Eval<double, Y>(q);
        CHECK(r.size() == m.series.size(), "all-series evaluation returns " << r.size() << " series instead of " << m.series.size());
        for (auto &e: m.series) {
          CHECK(r.count(e.first), "series '" << e.first << "' missing");
          long double tol;
          auto want = ref(e.second, m.method, q, tol);
          cmp(r[e.first], want, tol, "all-series evaluation of '" + e.first + "'");
        }
        std::vector<double> qs = {q, any->x.front(), q};
        if (same) {
          auto rv = sl.t->template Eval<std::vector<double>, std::vector<Y>>(qs);
          CHECK(rv.size() == m.series.size(), "all-series vector evaluation: wrong number of series");
          for (auto &e: m.series) {
            CHECK(rv[e.first].size() == 3, "all-series vector evaluation: wrong number of values");
            for (int i = 0; i < 3; ++i) {
              long double tol;
              auto want = ref(e.second, m.method, qs[i], tol);
              cmp(rv[e.first][i], want, tol, "all-series vector evaluation of '" + e.first + "'");
            }
          }
        }
        s.label("all-series");
        break;
      }
#ifdef NDEBUG
      case 10: {  // too few ordinates: refused, without effect (with assertions on, it aborts)
        if (!m.has_x) break;
        std::string name = s.pick(names);
        auto re = gen::values(s, (int) s.draw(m.x.size()));
        std::vector<Y> y(re.begin(), re.end());
        bool used = m.series.count(name) > 0, threw = false, answer = true;
        s.desc << "AddY(" << w << ",'" << name << "', too few values) ";
        try { answer = sl.t->AddY(name, y); } catch (...) { threw = true; }
        CHECK(used ? !threw && !answer : threw, "a series with too few values is accepted");
        disturbed = true;
        s.label("refused insertion");
        break;
      }
#endif
      case 9: {  // self move assignment
        Table &self = *sl.t;
        s.desc << "self-move(" << w << ") ";
        self = std::move(*sl.t);
        break;
      }
      default: break;
    }
    // invariant after every step, for both tables
    for (int v = 0; v < 2; ++v) {
      auto &t = *slots[v].t;
      auto &mm = slots[v].m;
      CHECK(t.GetNbSeries() == mm.series.size(), "table " << v << " holds " << t.GetNbSeries() << " series instead of " << mm.series.size());
      if (mm.has_x) {
        CHECK(t.GetX() == mm.x, "the abscissae are not the ones given");
        CHECK(t.GetNbSample() == mm.x.size(), "number of samples " << t.GetNbSample());
      }
      for (auto &e: mm.series) {
        CHECK(t.GetXmin(e.first) == e.second.x.front() && t.GetXmax(e.first) == e.second.x.back(), "range of '" << e.first << "'");
        double q = query(s, e.second, mm.method);
        long double tol;
        auto want = ref(e.second, mm.method, q, tol);
        cmp(t.Eval(e.first, q), want, tol, "series '" + e.first + "' of table " + std::to_string(v) + " at " + pbt::str(q));
        if (s.chance(20)) {
          std::vector<double> qs = {q, e.second.x.back(), e.second.x.front()};
          auto r = t.Eval(e.first, qs);
          CHECK(r.size() == qs.size(), "vector evaluation size");
          for (size_t i = 0; i < qs.size(); ++i) {
            want = ref(e.second, mm.method, qs[i], tol);
            cmp(r[i], want, tol, "vector evaluation of '" + e.first + "'");
          }
        }
        if (disturbed && mm.series.size() >= 2) nontriv = true;
      }
    }
  }
  s.nontrivial(nontriv);
}
#if PART(2)
TARGET(release_history, 9000) { history<long double>(s); }
#endif
#if PART(1)
TARGET(real_history, 15000) { history<double>(s); }
TARGET(complex_history, 6000) { history<cd>(s); }

TARGET_FORK(out_of_range, 1200) {
  LookupTable1D<double> t(LINEAR);
  auto x = gen::grid(s, 2, 60, 1200);
  t.SetX(x);
  t.AddY("a", gen::values(s, (int) x.size()));
  LookupTable1D<double> moved(std::move(t));
  moved.AddY("b", gen::values(s, (int) x.size()));
  std::string name = s.boolean() ? "a" : "b";
  double q = gen::outside(s, x);
  s.show("x", x);
  s.show("q", q);
  s.nontrivial();
  auto r = pbt::in_child([&] { moved.Eval(name, q); });
  CHECK(r.kind == pbt::ChildResult::THREW || (r.kind == pbt::ChildResult::EXITED && r.code != 0), "a LINEAR table extrapolates: " << pbt::str(r));
}
#endif
