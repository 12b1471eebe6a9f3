#pragma once
#include "common.hpp"
#include <cest/istream.hpp>
#include <array>
#include <cest/sstream.hpp>
template <int T> struct BitsSut : SutBase {
#define L(X) X(set) X(join) X(joineq) X(meet) X(meeteq) X(diff) X(diffeq) X(inv) X(less) X(has) X(fields) X(fresh)
  SUT_OPS(L)
#undef L
  using I = cest::ios_base;
  static constexpr auto bits() {
    if constexpr (T == 0)
      return std::array<I::fmtflags, 15>{I::boolalpha, I::dec, I::fixed, I::hex, I::internal, I::left, I::oct, I::right, I::scientific,
                                         I::showbase, I::showpoint, I::showpos, I::skipws, I::unitbuf, I::uppercase};
    else if constexpr (T == 1) return std::array<I::openmode, 6>{I::app, I::ate, I::binary, I::in, I::out, I::trunc};
    else return std::array<I::iostate, 3>{I::badbit, I::eofbit, I::failbit};
  }
  using M = std::decay_t<decltype(bits()[0])>;
  static constexpr int W = T == 0 ? 15 : T == 1 ? 6 : 3;
  M x = M();
  // told and made without the operators
  static constexpr M mask(int n) { int v = 0; auto b = bits(); for (int i = 0; i < W; ++i) if (n >> i & 1) v |= int(b[std::size_t(i)]); return M(v); }
  static constexpr int num(M m) { int n = 0, left = int(m); auto b = bits(); for (int i = 0; i < W; ++i) { int k = int(b[std::size_t(i)]); if ((int(m) & k) == k && k) { n |= 1 << i; left &= ~k; } } return left ? -1 : n; }
  constexpr void observe(IV& o) const { o.push_back(num(x)); }
  constexpr void apply(int op, IV& a, IV& r) {
    M m = mask(a[0]), all = mask((1 << W) - 1);
    bool self = true;
    switch (op) {
      case O_set: x = m; return;
      case O_join: x = x | m; break;
      case O_joineq: { auto& y = (x |= m); self = &y == &x; break; }
      case O_meet: x = x & m; break;
      case O_meeteq: { auto& y = (x &= m); self = &y == &x; break; }
      case O_diff: x = x ^ m; break;
      case O_diffeq: { auto& y = (x ^= m); self = &y == &x; break; }
      case O_inv: x = ~x & all; break;
      case O_less: x = x & ~m; break;
      case O_has: r.push_back((x & m) != M()); r.push_back(x == m); return;
      case O_fields: if constexpr (T == 0) for (M f : {I::adjustfield, I::basefield, I::floatfield}) r.push_back(num(f)); return;
      case O_fresh:
        if constexpr (T == 0) {
          cest::istringstream s(cest::string("a")); cest::istream t(s.rdbuf()), u(nullptr);
          r.push_back(s.flags() == t.flags() && u.flags() == t.flags() ? num(s.flags()) : -1); r.push_back(!s.tie() && !t.tie() && !u.tie());
        }
        return;
    }
    r.push_back(self);
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    op = g.below(T == 0 ? NOPS : O_fields);
    a = {g.chance(1, 2) ? 1 << g.below(W) : g.below(1 << W)};
    if (op == O_inv || op >= O_fields) a = {0};
    return true;
  }
};
