// C14: FFT.
// scale: 16
#include "pbt.h"
#include <iostream>
#include "MathUtils/FFT.h"
using namespace mathutils;
PBT_PROPERTY("C14",
             "real signals of 1..160 samples (powers of two, composite, prime, odd lengths; impulses, constants, tones, alternating, random), full and half spectrum, scaling on and off, and histories on one transformer that "
             "change length and options between calls, against a direct O(n^2) discrete Fourier transform in long double; frequency vectors in the six frequency units; non-trivial: at least 2 samples, not all equal")
typedef long double LD;
typedef std::complex<LD> CL;
static const LD PI_L = std::acos(-1.0L);

static int length(pbt::Src &s) {
  switch (s.draw(6)) {
    case 0: return 1 << s.integer(0, 7);
    case 1: return (int) s.pick({2, 3, 5, 7, 11, 13, 17, 31, 61, 97});
    case 2: return (int) s.pick({6, 10, 12, 15, 20, 21, 36, 45, 60, 77, 100, 120, 143, 160});
    default: return s.size(1, 64, 1100);
  }
}
template<class T>
static std::vector<T> signal(pbt::Src &s, int n) {
  std::vector<T> v(n);
  double c = s.chance(25) ? s.positive(-4, 4) : 1.;
  int kind = (int) s.draw(6), p = (int) s.draw(n), k = (int) s.draw(n);
  double ph = s.uniform(0, 6.28);
  for (int i = 0; i < n; ++i) {
    double x;
    switch (kind) {
      case 0: x = i == p; break;
      case 1: x = 1; break;
      case 2: x = std::cos(2 * M_PI * k * i / n + ph); break;
      case 3: x = i % 2 ? -1 : 1; break;
      case 4: x = (double) s.integer(-5, 5); break;
      default: x = s.uniform(-1, 1);
    }
    v[i] = (T) (c * x);
  }
  return v;
}
template<class T>
static std::vector<CL> dft(const std::vector<T> &v) {
  int n = (int) v.size();
  std::vector<CL> tw(n), f(n);
  for (int i = 0; i < n; ++i) tw[i] = CL(std::cos(2 * PI_L * i / n), -std::sin(2 * PI_L * i / n));
  for (int k = 0; k < n; ++k) { CL a = 0; for (int i = 0; i < n; ++i) a += (LD) v[i] * tw[(long) k * i % n]; f[k] = a; }
  return f;
}
template<class T>
static bool varied(const std::vector<T> &v) { for (auto x: v) if (x != v[0]) return true; return false; }
template<class T>
static LD l2(const std::vector<T> &v) { LD a = 0; for (auto x: v) a += (LD) x * x; return std::sqrt(a); }

static const FREQUENCY_UNIT FU[] = {HERTZ, RADS, DEGS, DEGM, RPM, S};
static const char *FN[] = {"HERTZ", "RADS", "DEGS", "DEGM", "RPM", "S"};
static LD from_hz(LD f, int u) {
  switch (u) {
    case 0: return f;
    case 1: return f * 2 * PI_L;
    case 2: return f * 360;
    case 3: return f * 360 * 60;
    case 4: return f * 60;
    default: return 1 / f;
  }
}

template<class T>
struct Model { bool half = false, unscaled = false; };

template<class T>
static void one(pbt::Src &s, FFT<T> &f, Model<T> &m) {
  int n = length(s);
  auto v = signal<T>(s, n), v0 = v;
  s.show("signal", v);
  s.desc << (m.half ? "half " : "full ") << (m.unscaled ? "unscaled; " : "scaled; ");
  const LD eps = std::numeric_limits<T>::epsilon();
  LD tol = 20 * eps * (1 + std::log2((LD) n)) * (l2(v) * std::sqrt((LD) n)) + 1e-300L;
  if (n % 2) s.label("odd length");
  s.label(m.half ? "half spectrum" : "full spectrum");
  auto ref = dft(v);
  int bins = m.half ? n / 2 + 1 : n;
  std::vector<std::complex<T>> F;
  if (s.chance(30)) F.assign(s.draw(200), std::complex<T>(9, 9));  // the output may hold something
  bool with_freq = s.chance(35);
  if (with_freq) {
    T fs = (T) s.pick({1., 2., 10., 0.25, 50.});
    if (s.boolean()) fs = (T) s.positive(-3, 3);
    int u = (int) s.draw(6);
    std::vector<T> fr;
    if (s.boolean()) fr.assign(5, (T) 3);
    bool def = u == 0 && s.boolean();
    if (def) f.fft(F, fr, v, fs); else f.fft(F, fr, v, fs, FU[u]);
    s.show("fs", fs);
    s.show("unit", FN[u]);
    CHECK((int) fr.size() == bins, "frequency vector has " << fr.size() << " values for " << bins << " bins");
    for (int i = 0; i < bins; ++i) {
      if (u == 5 && i == 0) continue;  // the mean value has no period
      LD want = from_hz((LD) fs * i / n, u);
      pbt::near(fr[i], want, (10 + 2 * n) * eps * std::fabs(want), std::string("frequency of bin ") + std::to_string(i) + " in " + FN[u]);
    }
    s.label("frequencies");
  } else f.fft(F, v);
  CHECK(v == v0, "the transform modified the signal");
  CHECK((int) F.size() == bins, "spectrum has " << F.size() << " bins, expected " << bins);
  for (int k = 0; k < bins; ++k) pbt::nearc(F[k], ref[k], tol, "bin " + std::to_string(k) + " of " + std::to_string(n));
  // inverse; a half spectrum determines the length only when it is even
  if (!m.half || (n % 2 == 0)) {
    std::vector<T> back;
    if (s.chance(30)) back.assign(s.draw(200), (T) 7);
    auto F0 = F;
    f.ifft(back, F);
    CHECK(F == F0, "the inverse transform modified the spectrum");
    CHECK((int) back.size() == n, "inverse has " << back.size() << " samples, expected " << n);
    LD g = m.unscaled ? n : 1;
    for (int i = 0; i < n; ++i) pbt::near(back[i], g * v[i], g * 2 * tol, "sample " + std::to_string(i) + " after fft and ifft");
    s.label("round trip");
  }
  s.nontrivial(n > 1 && varied(v));
}
TARGET(single, 25000) {
  FFT<double> f;
  Model<double> m;
  if (s.boolean()) { f.HalfSpectrumON(); m.half = true; }
  if (s.chance(30)) { f.ScalingOFF(); m.unscaled = true; }
  one(s, f, m);
}
TARGET(single_float, 6000) {
  FFT<float> f;
  Model<float> m;
  if (s.boolean()) { f.HalfSpectrumON(); m.half = true; }
  one(s, f, m);
}
TARGET(history, 6000) {
  FFT<double> f;
  Model<double> m;
  int ops = s.size(2, 10);
  for (int k = 0; k < ops; ++k) {
    switch (s.draw(7)) {
      case 0: s.note("HalfSpectrumON"); f.HalfSpectrumON(); m.half = true; break;
      case 1: s.note("HalfSpectrumOFF"); f.HalfSpectrumOFF(); m.half = false; break;
      case 2: s.note("ScalingON"); f.ScalingON(); m.unscaled = false; break;
      case 3: s.note("ScalingOFF"); f.ScalingOFF(); m.unscaled = true; break;
      default: one(s, f, m);
    }
  }
}
// an arbitrary spectrum with the symmetry of a real signal: ifft then fft
TARGET(spectrum_first, 8000) {
  int n = 2 * s.size(1, 40);
  auto v = signal<double>(s, n);
  s.show("signal", v);
  s.nontrivial(varied(v));
  auto ref = dft(v);
  bool half = s.boolean();
  FFT<double> f;
  if (half) f.HalfSpectrumON();
  std::vector<std::complex<double>> F, G;
  for (int k = 0; k < (half ? n / 2 + 1 : n); ++k) F.push_back(std::complex<double>((double) ref[k].real(), (double) ref[k].imag()));
  std::vector<double> b;
  f.ifft(b, F);
  LD tol = 40 * pbt::EPS * (1 + std::log2((LD) n)) * (l2(v) * std::sqrt((LD) n)) + 1e-300L;
  CHECK((int) b.size() == n, "size of the inverse");
  for (int i = 0; i < n; ++i) pbt::near(b[i], v[i], tol, "ifft of a spectrum");
  f.fft(G, b);
  CHECK(G.size() == F.size(), "size of the spectrum");
  for (size_t k = 0; k < F.size(); ++k) pbt::nearc(G[k], ref[k], 2 * tol, "ifft then fft");
}
TARGET(frequencies, 10000) {
  FFT<double> f;
  bool half = s.boolean();
  if (half) f.HalfSpectrumON();
  int n = s.chance(3) ? s.size(1, 20000) : s.size(1, 300), u = (int) s.draw(6);
  double fs = s.positive(-3, 4);
  s.show("n", n);
  s.show("fs", fs);
  s.show("unit", FN[u]);
  s.nontrivial(n > 1);
  auto v = f.GetFrequencyVector((unsigned) n, fs, FU[u]);
  int bins = half ? n / 2 + 1 : n;
  CHECK((int) v.size() == bins, "number of frequencies is " << v.size() << ", expected " << bins);
  for (int i = u == 5 ? 1 : 0; i < bins; ++i) { LD w = from_hz((LD) fs * i / n, u); pbt::near(v[i], w, (10 + 2 * n) * pbt::EPS * std::fabs(w), "frequency " + std::to_string(i)); }
  if (u == 0) CHECK(f.GetFrequencyVector((unsigned) n, fs) == v, "default unit is Hz");
  unsigned p = (unsigned) s.integer(0, 30);
  CHECK(Pow2(p) == (unsigned) std::ldexp(1., (int) p), "Pow2(" << p << ")");
}
