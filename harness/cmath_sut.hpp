#pragma once
#include "common.hpp"
#include "kmath.hpp"
#include <limits>
#include <cest/cmath.hpp>
struct CMathSut : SutBase {
#define L(X) X(floor) X(ceil) X(floor_next) X(ceil_next) X(abs) X(fabs) X(abs_next) X(pow) X(pow_two) X(pow_frac) X(pow_zero)
  SUT_OPS(L)
#undef L
  constexpr void observe(IV&) const {}
  static constexpr double dy(int p, int q) { return km::ldexp(double(p), -q); }
  static constexpr double next(int n, int d) { return d == 0 ? n : km::next(n, d); }
  static constexpr int whole(double x) { return x == km::floor(x) && x >= -2147483648.0 && x <= 2147483647.0 ? int(x) : -2147483647; }
  static constexpr void rem(double x, IV& r) {    // the remainders of an integer value
    if (!(km::fabs(x) <= 9007199254740992.0) || x != km::floor(x)) { r.push_back(0); return; }
    long long v = (long long)x;
    r.push_back(1);
    for (long long m : {30011LL, 29989LL}) r.push_back(int(((v % m) + m) % m));
  }
  constexpr void apply(int op, IV& a, IV& r) {
    switch (op) {
      case O_floor: r.push_back(whole(cest::floor(dy(a[0], a[1])))); break;
      case O_ceil: r.push_back(whole(cest::ceil(dy(a[0], a[1])))); break;
      case O_floor_next: r.push_back(whole(cest::floor(next(a[0], a[1])))); break;
      case O_ceil_next: r.push_back(whole(cest::ceil(next(a[0], a[1])))); break;
      case O_abs: r.push_back(whole(km::ldexp(cest::abs(dy(a[0], a[1])), a[1]))); break;
      case O_fabs: r.push_back(whole(km::ldexp(cest::fabs(dy(a[0], a[1])), a[1]))); break;
      case O_abs_next: { double x = next(a[0], a[1]), y = cest::abs(x), z = cest::fabs(x); r.push_back((y == x || y == -x) && z == y); r.push_back(y >= 0); break; }
      case O_pow: rem(cest::pow(double(a[0]), a[1]), r); break;
      case O_pow_two: {
        double x = cest::pow(a[0] * km::ldexp(1.0, a[1]), a[2]);
        int e = 0; double m = km::frexp(x, &e);
        r.push_back(m == 0.5 ? 1 : m == -0.5 ? -1 : 0); r.push_back(e - 1);
        break;
      }
      case O_pow_frac: rem(km::ldexp(cest::pow(dy(a[0], a[1]), a[2]), a[1] * a[2]), r); break;
      case O_pow_zero: r.push_back(whole(cest::pow(0.0, a[0]))); break;
    }
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    auto anyint = [&]() {
      int k = g.below(6);
      if (k == 0) return g.in(-20, 20);
      if (k == 1) { int s = g.below(30); int x = (1 << s) + g.in(-2, 2); return g.chance(1, 2) ? x : -x; }
      if (k == 2) return g.chance(1, 2) ? 2147483647 - g.below(5) : -2147483647 + g.below(5);
      return int(g.next() % 4294967295ull - 2147483647);
    };
    op = g.below(NOPS);
    switch (op) {
      case O_floor: case O_ceil: case O_abs: case O_fabs: a = {anyint(), g.in(0, 30)}; break;
      case O_floor_next: case O_ceil_next: case O_abs_next:
        a = {anyint(), g.in(-1, 1)};
        if (a[0] > 2147483640) a[0] -= 1;
        break;
      case O_pow: {
        int b = g.in(-300, 300), e = 0; double m = km::fabs(double(b)), x = 1;
        if (g.chance(1, 4)) b = g.in(-3, 3), m = km::fabs(double(b));
        while (m > 1 && x * m <= 9007199254740992.0) { x *= m; ++e; }
        a = {b, m <= 1 ? g.in(0, 600) : g.chance(1, 3) ? e : g.in(0, e)};
        break;
      }
      case O_pow_two: {
        int k = g.chance(1, 3) ? g.in(-1000, 1000) : g.in(-20, 20), e = k ? g.in(-1000, 1000) / (k < 0 ? -k : k) : g.in(-600, 600);
        a = {g.chance(1, 2) ? 1 : -1, k, e};
        break;
      }
      case O_pow_frac: {
        int p = 2 * g.in(-40, 40) + 1, e = 0; double x = 1, m = km::fabs(double(p));
        while (m > 1 && x * m <= 9007199254740992.0) { x *= m; ++e; }
        a = {p, g.in(1, 12), m <= 1 ? g.in(0, 50) : g.in(0, e)};
        break;
      }
      case O_pow_zero: a = {g.in(0, 200)}; break;
    }
    return true;
  }
};
