#pragma once
#include "common.hpp"
#include "kmath.hpp"
#include <cest/swap.hpp>
#include <cest/vector.hpp>
#include <cest/memory.hpp>
#include <memory>
struct Big { int pad[20]; E e; Big(int v) : pad{v}, e(v) {} };
struct Throwing {      // moving may throw
  int v; Throwing(int x) : v(x) {}
  Throwing(Throwing&& o) : v(o.v) { o.v = -7; }
  Throwing& operator=(Throwing&& o) { v = o.v; o.v = -7; return *this; }
};
// moving throws, at the n-th time: only construction (C) or only assignment
template <bool C> struct Bomb {
  int* left;
  constexpr void tick(bool b) const { if (b && --*left == 0) throw 5; }
  explicit Bomb(int& n) : left(&n) {}
  Bomb(Bomb&& o) noexcept(!C) : left(o.left) { tick(C); }
  Bomb& operator=(Bomb&& o) noexcept(C) { left = o.left; tick(!C); return *this; }
};
template <bool C> int explode(bool right, int n, int arity) {
  Bomb<C> a(n), b(n), c(n), d(n);
  try {
    if (right) switch (arity) { case 2: nary::swapr(a, b); break; case 3: nary::swapr(a, b, c); break; default: nary::swapr(a, b, c, d); }
    else switch (arity) { case 2: nary::swap(a, b); break; case 3: nary::swap(a, b, c); break; default: nary::swap(a, b, c, d); }
  } catch (int e) { return e; }
  return 0;
}
inline int val(const std::unique_ptr<int>& p) { return p ? *p : -1; }
inline int val(const Big& b) { return b.pad[0] == val(b.e) ? b.pad[0] : -1; }
inline int val(const Throwing& b) { return b.v; }
constexpr int val(const cest::vector<int>& v) { return v.size() == 20 ? v[19] : -1; }
constexpr int val(const cest::shared_ptr<int>& p) { return p && p.use_count() == 1 ? *p : -1; }
template <class T> struct Mk { static constexpr T of(int v) { return T(v); } };
template <> struct Mk<std::unique_ptr<int>> { static std::unique_ptr<int> of(int v) { return std::make_unique<int>(v); } };

constexpr int MAXAR = 18;
template <> struct Mk<cest::vector<int>> { static constexpr cest::vector<int> of(int v) { cest::vector<int> r(20); for (auto& x : r) x = v; return r; } };
template <> struct Mk<cest::shared_ptr<int>> { static constexpr cest::shared_ptr<int> of(int v) { return cest::shared_ptr<int>(new int(v)); } };
template <class T, int N> struct NSwapSut : SutBase {
#define L(X) X(swap) X(swapr) X(set) X(fail)
  SUT_OPS(L)
#undef L
  DV<T> x;
  constexpr NSwapSut() { for (int i = 1; i <= N; ++i) x.push_back(Mk<T>::of(i)); }
  constexpr void observe(IV& o) const { for (auto& e : x) o.push_back(val(e)); }
  constexpr void apply(int op, IV& a, IV& r) {
    auto at = [&](int i) -> T& { return x[size_t(a[size_t(i)])]; };
    if (op == O_fail) { r.push_back(a[1] ? explode<true>(a[0], 1, a[3]) : explode<false>(a[0], a[2], a[3])); return; }
    if (op == O_set) { x[size_t(a[0])] = Mk<T>::of(a[1]); return; }
    go<0>(op == O_swap, a);
  }
  template <size_t... I> constexpr void call(bool left, const IV& a, std::index_sequence<I...>) {
    if (left) nary::swap(x[size_t(a[I])]...); else nary::swapr(x[size_t(a[I])]...);
  }
  template <size_t n> constexpr void go(bool left, const IV& a) {
    if constexpr (n <= (N < MAXAR ? N : MAXAR)) { if (a.size() == n) call(left, a, std::make_index_sequence<n>()); else go<n + 1>(left, a); }
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    op = g.below(8);
    op = op < 3 ? O_swap : op < 6 ? O_swapr : op < 7 || pf.ct ? O_set : O_fail;
    a = {};
    if (op == O_fail) { int n = g.in(2, 4); a = {g.below(2), g.below(2), g.in(1, n), n}; return true; }
    if (op == O_set) { a = {g.below(N), g.in(-100, 100)}; return true; }
    IV p; for (int i = 0; i < N; ++i) p.push_back(i);
    int n = g.in(0, N < MAXAR ? N : MAXAR);
    for (int i = 0; i < n; ++i) { int k = g.in(i, N - 1); std::swap(p[size_t(i)], p[size_t(k)]); a.push_back(p[size_t(i)]); }
    return true;
  }
};
