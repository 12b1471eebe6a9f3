#pragma once
#include <cest/complex.hpp>
#include "common.hpp"
#include "kmath.hpp"
template <class T, class U, int K, int MAX> struct ComplexSut : SutBase {
#define L(X) X(set) X(make0) X(make1) X(assign) X(copy) X(convert) X(setre) X(setim) X(upd) X(updx) X(upds) X(bin) X(bins) X(sbin) X(chain) \
  X(neg) X(pos) X(conj) X(parts) X(eq) X(eqs) X(pow) X(recip) X(scaled) X(wide)
  SUT_OPS(L)
#undef L
  using C = cest::complex<T>;
  using D = cest::complex<U>;
  C z[K];
  static constexpr int num(T x) { return x >= T(-2147483647) && x <= T(2147483647) && T(int(x)) == x ? int(x) : -2147483647; }
  constexpr void observe(IV& o) const { for (auto& x : z) { o.push_back(num(x.real())); o.push_back(num(x.imag())); } }
  template <class A, class B2> static constexpr C bin(int k, const A& x, const B2& y) { return k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : x / y; }
  template <class B2> static constexpr void upd(int k, C& x, const B2& y, bool& same) {
    C& w = k == 0 ? x += y : k == 1 ? x -= y : k == 2 ? x *= y : x /= y;
    same = &w == &x;
  }
  constexpr void apply(int op, IV& a, IV& r) {
    bool same = true;
    switch (op) {
      case O_set: z[a[0]] = C(T(a[1]), T(a[2])); break;
      case O_make0: z[a[0]] = C(); break;
      case O_make1: z[a[0]] = C(T(a[1])); break;
      case O_assign: { C& w = (z[a[0]] = T(a[1])); same = &w == &z[a[0]]; break; }
      case O_copy: { C w(z[a[1]]); z[a[0]] = w; break; }
      case O_convert: { D d(z[a[1]]); if (d.real() == U(z[a[1]].real())) z[a[0]] = d; break; }
      case O_setre: z[a[0]].real(T(a[1])); break;
      case O_setim: z[a[0]].imag(T(a[1])); break;
      case O_upd: upd(a[0], z[a[1]], z[a[2]], same); break;
      case O_updx: upd(a[0], z[a[1]], D(z[a[2]]), same); break;
      case O_upds: upd(a[0], z[a[1]], T(a[2]), same); break;
      case O_bin: z[a[1]] = bin(a[0], z[a[2]], z[a[3]]); break;
      case O_bins: z[a[1]] = bin(a[0], z[a[2]], T(a[3])); break;
      case O_sbin: z[a[1]] = bin(a[0], T(a[2]), z[a[3]]); break;
      case O_chain: z[a[2]] = bin(a[1], bin(a[0], z[a[2]], z[a[3]]), z[a[3]]); break;
      case O_scaled: {
        int k = a[0], e = std::is_integral_v<T> ? 0 : a[5], f = std::is_integral_v<T> ? 0 : k < 2 ? e : a[6];
        auto by = [](T v, int n) { if constexpr (std::is_integral_v<T>) return v; else return km::scale(v, n); };
        C x(by(z[a[2]].real(), e), by(z[a[2]].imag(), e)), y(by(z[a[3]].real(), f), by(z[a[3]].imag(), f));
        int back = k < 2 ? -e : k == 2 ? -e - f : f - e;
        switch (a[4]) {
          case 0: x = bin(k, x, y); break;
          case 1: upd(k, x, y, same); break;
          case 2: upd(k, x, D(y), same); break;
          case 3: x = bin(k, x, y.real()); break;
          case 4: upd(k, x, y.real(), same); break;
          default: x = bin(k, x.real(), y); break;
        }
        z[a[1]] = C(by(x.real(), back), by(x.imag(), back));
        break;
      }
      case O_wide: {
        const T m = sizeof(T) >= 8 && sizeof(U) >= 8 ? T(1 << 25) : T(1);
        const T p = z[a[0]].real() * m + z[a[0]].imag(), q = z[a[0]].imag() * m - z[a[0]].real();
        const C x(p, q);
        const D d(x);
        C y(d), w; w = d;
        D v; v = x;
        r.push_back(d.real() == U(p) && y.real() == p && w.real() == p && v.real() == U(p));
        r.push_back(d.imag() == U(q) && y.imag() == q && w.imag() == q && v.imag() == U(q));
        break;
      }
      case O_neg: z[a[0]] = -z[a[1]]; break;
      case O_pos: z[a[0]] = +z[a[1]]; break;
      case O_conj: z[a[0]] = cest::conj(z[a[1]]); break;
      case O_parts: {
        const C& w = z[a[0]];
        r.push_back(num(w.real())); r.push_back(num(w.imag())); r.push_back(num(cest::real(w))); r.push_back(num(cest::imag(w))); r.push_back(num(cest::norm(w)));
        break;
      }
      case O_eq: r.push_back(z[a[0]] == z[a[1]]); r.push_back(z[a[0]] != z[a[1]]); break;
      case O_eqs: r.push_back(z[a[0]] == T(a[1])); r.push_back(z[a[0]] != T(a[1])); r.push_back(T(a[1]) == z[a[0]]); r.push_back(T(a[1]) != z[a[0]]); break;
      case O_pow: if constexpr (!std::is_integral_v<T>) z[a[0]] = cest::pow(z[a[1]], a[2]); break;
      case O_recip: {
        C w;
        if constexpr (!std::is_integral_v<T>) w = cest::pow(z[a[0]], -a[1]);
        T s = T(1 << a[2]);
        r.push_back(num(w.real() * s)); r.push_back(num(w.imag() * s));
        break;
      }
    }
    if (!same) r.push_back(-99);
  }
  static constexpr bool fits(long x, long y) { return x >= -MAX && x <= MAX && y >= -MAX && y <= MAX; }
  // is the result within the bounds (and, for /, a Gaussian integer)?
  static constexpr bool can(int k, long a, long b, long c, long d, long* o = nullptr) {
    long x = 0, y = 0;
    if (k == 0) { x = a + c; y = b + d; }
    if (k == 1) { x = a - c; y = b - d; }
    if (k == 2) { x = a * c - b * d; y = a * d + b * c; }
    if (k == 3) { long n = c * c + d * d; if (!n) return false; x = a * c + b * d; y = b * c - a * d; if (x % n || y % n) return false; x /= n; y /= n; }
    if (o) { o[0] = x; o[1] = y; }
    return fits(x, y);
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), u = g.below(K), k = g.below(4);
    auto re = [&](int i) { return long(z[i].real()); };
    auto im = [&](int i) { return long(z[i].imag()); };
    int big = g.chance(1, 3) ? 9 : g.chance(1, 2) ? 90 : MAX;
    int x = g.in(-big, big);
    if (k == 3 && g.chance(2, 3)) { x = g.in(1, 6); if (g.chance(1, 2)) x = -x; }
    long w[2];
    for (int tries = 0; tries < 20; ++tries) {
      op = g.below(NOPS); s = g.below(K); t = g.below(K); u = g.below(K);
      switch (op) {
        case O_set: a = {s, g.in(-big, big), g.in(-big, big)}; return true;
        case O_make0: a = {s}; if (g.chance(1, 4)) return true; break;
        case O_make1: case O_assign: case O_setre: case O_setim: a = {s, x}; if (g.chance(1, 2)) return true; break;
        case O_copy: case O_convert: case O_neg: case O_pos: case O_conj: a = {s, t}; return true;
        case O_eq: a = {s, t}; return true;
        case O_eqs: a = {s, g.chance(1, 2) ? int(re(s)) : x}; return true;
        case O_parts: a = {s}; return true;
        case O_upd: case O_updx: a = {k, s, t}; if (can(k, re(s), im(s), re(t), im(t))) return true; break;
        case O_upds: a = {k, s, x}; if (can(k, re(s), im(s), x, 0)) return true; break;
        case O_bin: a = {k, u, s, t}; if (can(k, re(s), im(s), re(t), im(t))) return true; break;
        case O_bins: a = {k, u, s, x}; if (can(k, re(s), im(s), x, 0)) return true; break;
        case O_sbin: a = {k, u, x, s}; if (can(k, x, 0, re(s), im(s))) return true; break;
        case O_wide: a = {s}; return true;
        case O_scaled: {
          int how = g.below(6), top = sizeof(T) >= 8 && sizeof(U) >= 8 ? 100 : 20;
          a = {k, u, s, t, how, g.in(-top, top), g.in(-top, top)};
          if (can(k, re(s), how == 5 ? 0 : im(s), re(t), how == 3 || how == 4 ? 0 : im(t))) return true;
          break;
        }
        case O_chain: { int k2 = g.below(4); a = {k, k2, s, t}; if (can(k, re(s), im(s), re(t), im(t), w) && can(k2, w[0], w[1], re(t), im(t))) return true; break; }
        case O_pow: {
          if (std::is_integral_v<T> || pf.ct) break;   // pow(complex<int>, int) is ambiguous
          int n = g.in(0, 12);
          w[0] = 1; w[1] = 0; bool ok = true;
          for (int i = 0; i < n && ok; ++i) ok = can(2, w[0], w[1], re(t), im(t), w);
          // the repeated squaring stays in bounds too
          long v[2] = {re(t), im(t)};
          for (int m = n >> 1; m && ok; m >>= 1) ok = can(2, v[0], v[1], v[0], v[1], v);
          a = {s, t, n};
          if (ok) return true;
          break;
        }
        case O_recip: {
          if (std::is_integral_v<T> || pf.ct) break;
          int n = g.in(1, 6), e = g.in(0, 12);
          w[0] = 1; w[1] = 0; bool ok = true;
          for (int i = 0; i < n && ok; ++i) ok = can(2, w[0], w[1], re(s), im(s), w);
          a = {s, n, e};
          long nn = w[0] * w[0] + w[1] * w[1];
          if (ok && (nn & (nn - 1)) == 0 && nn < 2000 && can(3, 1 << e, 0, w[0], w[1])) return true;
          break;
        }
      }
    }
    op = O_set; a = {s, g.in(-9, 9), g.in(-9, 9)};
    if (g.chance(1, 2)) a = {s, g.in(-1, 1), g.in(-1, 1)};
    return true;
  }
};
