#pragma once
#include "common.hpp"
#include "kmath.hpp"
#include <iosfwd>
#include <limits>
#include <cest/cmath.hpp>
#include <cest/istream.hpp>
#include <cest/complex.hpp>
template <class F> struct TransSut : SutBase {
#define L(X) X(sqrt) X(exp) X(sinh) X(cosh) X(sin) X(cos) X(atan) X(log) X(atan2) X(carg) X(cabs) X(cexp) X(clog) X(csin) X(ccos) X(csinh) X(ccosh) \
  X(csqrt) X(ctan) X(ctanh) X(clog10) X(polar) X(cpow) X(cpowr) X(rpowc) X(odd)
  SUT_OPS(L)
#undef L
  using C = cest::complex<F>;
  static constexpr int OUT = -2147483647;
  constexpr void observe(IV&) const {}
  static constexpr double num(IV& a, int i) { return km::ldexp(double(a[i]), a[i + 1]); }
  static constexpr void rel(double v, IV& r, int n) {
    if (!km::isfinite(v)) { r.push_back(OUT); return; }
    int e = 0; double f = km::frexp(v, &e);
    if (v == 0) { r.insert(r.end(), {0, 0, 0}); return; }
    r.push_back(f < 0 ? -1 : 1); r.push_back(e); r.push_back(int(km::floor(km::fabs(f) * n)));
  }
  static constexpr int cell(double v) { return km::fabs(v) < 1e9 ? int(km::floor(v)) : OUT; }
  static constexpr void near(double v, IV& r, int n) { r.push_back(cell(v * n)); }
  static constexpr void cx(C z, IV& r, int n) {
    double x = z.real(), y = z.imag(), m = km::fmax(km::fabs(x), km::fabs(y));
    if (!km::isfinite(x) || !km::isfinite(y)) { r.push_back(OUT); return; }
    int e = 0; km::frexp(m, &e); if (m == 0 || e < 0) e = 0;
    r.push_back(e); r.push_back(cell(n * km::ldexp(x, -e))); r.push_back(cell(n * km::ldexp(y, -e)));
  }
  static constexpr int kind(double v) { return v == 0 ? 0 : km::isnan(v) ? 2 : km::isinf(v) ? (v > 0 ? 1 : 3) : 9; }
  static constexpr int kind(C z) { return z.real() == 0 && z.imag() == 0 ? 0 : 9; }
  constexpr void apply(int op, IV& a, IV& r) {
    if (op == O_odd) {
      const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
      switch (a[0]) {
        case 0: r.push_back(kind(cest::sqrt(0.0))); break;
        case 1: r.push_back(kind(cest::sqrt(-4.0))); break;
        case 2: r.push_back(kind(cest::sqrt(inf))); break;
        case 3: r.push_back(kind(cest::sqrt(nan))); break;
        case 4: r.push_back(kind(cest::log(0.0))); break;
        case 5: r.push_back(kind(cest::log(-0.5))); break;
        case 6: r.push_back(kind(cest::abs(C(0, 0)))); break;
        case 7: r.push_back(kind(cest::sqrt(C(0, 0)))); break;
        case 8: r.push_back(kind(cest::pow(C(0, 0), C(2, 1)))); break;
        case 9: r.push_back(kind(cest::pow(C(0, 0), F(1.5)))); break;
        case 11: r.push_back(kind(cest::log(inf))); break;
        case 12: r.push_back(kind(cest::log(nan))); break;
        case 13: r.push_back(kind(cest::sin(inf))); break;
        case 14: r.push_back(kind(cest::cos(-inf))); break;
        case 15: r.push_back(kind(cest::sin(nan))); break;
        case 16: r.push_back(kind(cest::sinh(inf))); break;
        case 17: r.push_back(kind(cest::sinh(-inf))); break;
        case 18: r.push_back(kind(cest::cosh(-inf))); break;
        case 19: r.push_back(kind(cest::cosh(nan))); break;
        case 20: r.push_back(kind(cest::atan(nan))); break;
        case 21: r.push_back(kind(cest::exp(inf))); break;
        case 22: r.push_back(kind(cest::exp(-inf))); break;
        case 23: r.push_back(kind(cest::exp(nan))); break;
        case 24: r.push_back(kind(cest::exp(1e10))); break;
        case 25: r.push_back(kind(cest::exp(-1e10))); break;
        case 26: near(cest::atan(inf), r, 4096); break;
        case 27: near(cest::atan(-inf), r, 4096); break;
        case 28: near(cest::atan2(0.0, -1.0), r, 4096); break;
        case 29: r.push_back(kind(cest::sqrt(-inf))); break;
        case 30: r.push_back(kind(cest::log(-inf))); break;
        case 10: r.push_back(kind(cest::pow(F(0), C(2, 1)))); break;
      }
      return;
    }
    double x = num(a, 0), y = a.size() > 3 ? num(a, 2) : 0;
    C z = C(F(x), F(y));
    switch (op) {
      case O_sqrt: rel(cest::sqrt(x), r, 1024); break;
      case O_exp: rel(cest::exp(x), r, 8192); break;
      case O_sinh: rel(cest::sinh(x), r, 8192); break;
      case O_cosh: rel(cest::cosh(x), r, 1024); break;
      case O_sin: near(cest::sin(x), r, 4096); break;
      case O_cos: near(cest::cos(x), r, 4096); break;
      case O_atan: near(cest::atan(x), r, 4096); break;
      case O_log: near(cest::log(x), r, 512); break;
      case O_atan2: near(cest::atan2(x, y), r, 4096); break;
      case O_carg: near(cest::arg(z), r, 4096); break;
      case O_cabs: rel(cest::abs(z), r, 1024); break;
      case O_cexp: cx(cest::exp(z), r, 512); break;
      case O_clog: cx(cest::log(z), r, 512); break;
      case O_csin: cx(cest::sin(z), r, 512); break;
      case O_ccos: cx(cest::cos(z), r, 512); break;
      case O_csinh: cx(cest::sinh(z), r, 512); break;
      case O_ccosh: cx(cest::cosh(z), r, 512); break;
      case O_csqrt: cx(cest::sqrt(z), r, 512); break;
      case O_ctan: cx(cest::tan(z), r, 512); break;
      case O_ctanh: cx(cest::tanh(z), r, 512); break;
      case O_clog10: cx(cest::log10(z), r, 512); break;
      case O_polar: cx(cest::polar(F(x), F(y)), r, 512); break;
      case O_cpow: cx(cest::pow(z, C(F(num(a, 4)), F(num(a, 6)))), r, 128); break;
      case O_cpowr: cx(cest::pow(z, F(num(a, 4))), r, 128); break;
      case O_rpowc: cx(cest::pow(F(x), C(F(y), F(num(a, 4)))), r, 128); break;
    }
  }
  // a number up to 2^hi in magnitude, as m * 2^e, |m| < 2^20: whole, round, tiny, next to a power of two, or any
  static constexpr void any(Rng& g, IV& a, int hi, int lo = -25) {
    int k = g.below(8), m = 0, e = 0;
    if (k == 0) { m = g.in(0, 8); e = 0; while (m >= (1 << (hi < 0 ? 0 : hi > 20 ? 20 : hi)) && m) m /= 2; }
    else if (k == 1) { m = g.below(3); e = g.in(lo, hi - 2); }
    else if (k == 2) { int b = g.in(lo, hi - 1); m = (1 << 19) + g.in(-2, 2); e = b - 19 - (m > (1 << 19)); if (m > (1 << 19)) { m -= m % 2; } }
    else { int b = k < 6 ? g.in(hi - 4 < lo ? lo : hi - 4, hi) : g.in(lo, hi); m = int(g.next() % (1 << 20)); e = b - 20; }
    if (g.chance(1, 2)) m = -m;
    a.push_back(m); a.push_back(e);
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    // what can be evaluated by the compiler
    auto plain = [](int o) { return (o <= O_cabs && o != O_carg) || o == O_odd; };
    do op = g.below(NOPS); while (pf.ct && !plain(op));
    a.clear();
    auto lim = [&](int i, double hi) { double v = num(a, i); if (v > hi || v < -hi) { a[i] = 0; a[i + 1] = 0; } };
    auto positive = [&](int i) { if (a[i] < 0) a[i] = -a[i]; if (a[i] == 0) a[i] = 1; };
    // no number below 2^e, and none that the type has not
    auto least = [](IV& v, int i, int e) { while (v[i + 1] < e) { v[i] /= 2; ++v[i + 1]; } if (v[i] == 0) v[i + 1] = 0; };
    int wide = op == O_clog || op == O_clog10 || g.chance(1, 2) ? 60 : std::is_same_v<F, float> && op != O_atan2 ? 126 : 1000;
    switch (op) {
      case O_sqrt: case O_log:
        if (g.chance(1, 2)) any(g, a, 12, -12); else any(g, a, 1024, g.chance(1, 3) ? -1073 : -800);
        least(a, 0, -1074); positive(0); break;
      case O_exp: if (g.chance(1, 2)) any(g, a, 3, -40); else any(g, a, 10, -10); lim(0, 690); break;
      case O_sinh: case O_cosh: if (g.chance(1, 2)) any(g, a, 2, -60); else any(g, a, 7, -10); lim(0, 100); break;
      case O_sin: case O_cos: if (g.chance(1, 2)) any(g, a, 4); else any(g, a, 10, -10); lim(0, 1000); break;
      case O_atan: if (g.chance(1, 2)) any(g, a, 3); else any(g, a, 200, -200); break;
      case O_atan2: case O_carg: case O_cabs: case O_clog: case O_clog10:
        for (int i = 0; i < 2; ++i) if (g.chance(1, 8)) a.insert(a.end(), {0, 0}); else any(g, a, g.chance(1, 2) ? 4 : wide, -wide);
        for (int i = 0; i < 4; i += 2) least(a, i, std::is_same_v<F, float> ? -126 - 20 : -1074);
        if (a[0] == 0 && a[2] == 0) a[0] = 1;
        break;
      case O_csqrt: any(g, a, g.chance(1, 2) ? 4 : 60, -30); if (g.chance(1, 2)) any(g, a, 4); else { int e = a[1]; any(g, a, e + 22, e + 14); } break;
      case O_polar: any(g, a, 6); if (a[0] < 0) a[0] = -a[0]; any(g, a, 3); break;
      case O_ctan: case O_ctanh: {
        any(g, a, 2); any(g, a, 2);
        int i = op == O_ctan ? 0 : 2;
        if (km::fabs(num(a, 2 - i)) < 0.5) lim(i, 1.25);      // away from the poles
        break;
      }
      case O_cpow: case O_cpowr: case O_rpowc:
        any(g, a, 2, -3);
        if (op != O_rpowc) any(g, a, 2, -3);
        if (num(a, 0) * num(a, 0) + (op != O_rpowc ? num(a, 2) * num(a, 2) : 0) < 0.015625) { a[0] = 1; a[1] = 0; }
        any(g, a, 1, -10);
        if (op != O_cpowr) any(g, a, 1, -10);
        break;
      case O_odd: do a = {g.below(31)}; while (pf.ct && a[0] != 0 && a[0] != 6 && a[0] != 28); break;     // only numbers
      default: any(g, a, 2); any(g, a, 2); break;
    }
    return true;
  }
};
