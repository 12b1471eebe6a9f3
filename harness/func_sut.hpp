#pragma once
#include "ptr_world.hpp"
#include <cest/functional.hpp>
#include <functional>
#include <memory>

struct FWorld { int live = 0, calls = 0, shared = 0; };
// the callables, as functions of two ints
struct CFixed { constexpr int operator()(int x, int y) const { return x - 3 * y; } };
struct CCap { FWorld* w; int c; constexpr int operator()(int x, int y) const { ++w->calls; return 100 * c + 5 * x + y; } };
struct CCount { FWorld* w; int n; constexpr int operator()(int x, int y) { ++w->calls; n = (n + 1) % 4; return 100 * n + x - y; } };
struct COwn {
  FWorld* w; int* box;
  constexpr COwn(FWorld* a, int c) : w(a), box(new int(c)) { ++w->live; }
  constexpr COwn(const COwn& o) : w(o.w), box(new int(*o.box)) { ++w->live; }
  constexpr COwn(COwn&& o) noexcept : w(o.w), box(o.box) { o.box = nullptr; }
  COwn& operator=(const COwn&) = delete;
  constexpr ~COwn() { if (box) { --w->live; delete box; } }
  constexpr int operator()(int x, int y) { ++w->calls; *box = (*box + x) % 5; if (x == 13) throw 13; return 10 * *box + y; }
};
struct CShared { FWorld* w; constexpr int operator()(int x, int y) { ++w->calls; w->shared = (w->shared + x) % 5; if (x == 13) throw 13; return 10 * w->shared + y; } };
struct CBig { FWorld* w; int a[40]; constexpr CBig(FWorld* v, int c) : w(v), a{} { for (int i = 0; i < 40; ++i) a[i] = c * i; } constexpr int operator()(int x, int y) const { ++w->calls; return a[20 + x] + y; } };

struct Uniq {
  int* p;
  constexpr explicit Uniq(int v) : p(new int(v)) {}
  constexpr Uniq(Uniq&& o) noexcept : p(o.p) { o.p = nullptr; }
  constexpr ~Uniq() { delete p; }
};
// signatures: how the two ints go in and the result comes out
struct SigInt {
  using F = cest::function<int(int, int)>;
  template <class C> struct Ad { C c; constexpr int operator()(int x, int y) { return c(x, y); } };
  static constexpr int fn(int x, int y) { return 7 * x + y; }
  static constexpr int call(F& f, int x, int y) { return f(x, y); }
};
struct SigVoid {
  using F = cest::function<void(int&, int, const int&)>;
  template <class C> struct Ad { C c; constexpr int operator()(int& out, int x, const int& y) { out = c(x, y); return 5; } };
  static constexpr void fn(int& out, int x, const int& y) { out = 7 * x + y; }
  static constexpr int call(F& f, int x, int y) { int out = -1; f(out, x, y); return out; }
};
struct SigMove {
  using F = cest::function<int(Uniq, Uniq&&)>;
  template <class C> struct Ad { C c; constexpr int operator()(Uniq x, Uniq&& y) { return c(*x.p, *y.p); } };
  static constexpr int fn(Uniq x, Uniq&& y) { return 7 * *x.p + *y.p; }
  static constexpr int call(F& f, int x, int y) { Uniq a(x); Uniq b(y); return f(std::move(a), std::move(b)); }
};
struct SigVoidMove {
  using F = cest::function<void(Uniq, Uniq&&, int&)>;
  template <class C> struct Ad { C c; constexpr void operator()(Uniq x, Uniq&& y, int& out) { out = c(*x.p, *y.p); } };
  static constexpr void fn(Uniq x, Uniq&& y, int& out) { out = 7 * *x.p + *y.p; }
  static constexpr int call(F& f, int x, int y) { Uniq a(x); Uniq b(y); int out = -1; f(std::move(a), std::move(b), out); return out; }
};
struct SigRef {
  using F = cest::function<int&(int&, const int&)>;
  template <class C> struct Ad { C c; constexpr int& operator()(int& x, const int& y) { x = c(x, y); return x; } };
  static constexpr int& fn(int& x, const int& y) { return x = 7 * x + y; }
  static constexpr int call(F& f, int x, int y) { int a = x, b = y; int& z = f(a, b); return &z == &a ? z : -999; }
};

template <class Sig, int K> struct FuncSut : SutBase {
#define L(X) X(make) X(set) X(copy) X(assign) X(move) X(massign) X(swap) X(wrap) X(call) X(bycopy)
  SUT_OPS(L)
#undef L
  using F = typename Sig::F;
  struct Nest { F f; constexpr int operator()(int x, int y) { return Sig::call(f, y, x) + 1; } };
  FWorld w;
  CShared shared;
  int clean = no_leak(true);       // the function objects before these left nothing behind
  F* p[K];
  int full[K], depth[K] = {}, kind[K] = {};
  constexpr FuncSut() : shared{&w} { Counting c; for (auto& x : p) x = new F(&Sig::fn); for (auto& x : full) x = 1; }
  FuncSut(const FuncSut&) = delete;
  constexpr ~FuncSut() { Counting c; for (auto& x : p) delete x; }
  constexpr void observe(IV& obs) const { obs.push_back(w.live); obs.push_back(w.shared); obs.push_back(clean); }
  template <class X> constexpr void give(int s, bool fresh, X&& x) {
    if (fresh) { F* n = new F(std::forward<X>(x)); delete p[s]; p[s] = n; }
    else *p[s] = std::forward<X>(x);
  }
  template <class C> using Ad = typename Sig::template Ad<C>;
  constexpr void load(int s, bool fresh, int k, int cap, int mode, IV& r) {
    switch (k) {
      case 0: if (cap % 2) give(s, fresh, &Sig::fn); else { cest::function g(&Sig::fn); static_assert(std::is_same_v<decltype(g), F>); give(s, fresh, std::move(g)); } break;
      case 1: { const Ad<CFixed> z{}; give(s, fresh, z); break; }
      case 2: give(s, fresh, Ad<CCap>{{&w, cap}}); break;
      case 3: give(s, fresh, Ad<CCount>{{&w, cap}}); break;
      case 4:
        if (mode == 0) give(s, fresh, Ad<COwn>{COwn(&w, cap)});
        else {
          Ad<COwn> z{COwn(&w, cap)};
          if (mode % 2) give(s, fresh, z); else { const auto& y = z; give(s, fresh, y); }
          if (mode > 2) { r.push_back(*z.c.box); break; }
          F t = *p[s];
          int n = w.calls; Sig::call(t, 1, 1); w.calls = n;
          r.push_back(z.c.box ? *z.c.box : -1);
        }
        break;
      case 6: give(s, fresh, Ad<std::reference_wrapper<CShared>>{std::ref(shared)}); break;
      case 7: give(s, fresh, Ad<CBig>{CBig(&w, cap)}); break;
      case 8: {
        // a function object of another signature is a callable like any
        cest::function<long(long, long)> g([v = &w, cap, n = 0](long x, long y) mutable { ++v->calls; n = (n + 1) % 3; return 1000l * n + 10 * cap + 2 * x - y; });
        give(s, fresh, Ad<cest::function<long(long, long)>>{std::move(g)});
        break;
      }
    }
    full[s] = 1; depth[s] = 0; kind[s] = k;
  }
  static constexpr int guarded(F& f, int x, int y, bool ct, int& raised) {
    if (ct) return Sig::call(f, x, y);
    try { return Sig::call(f, x, y); } catch (int e) { raised = 1; return -e; }
  }
  constexpr void ask(F& f, int x, int y, IV& r) {
    int raised = 0;
    w.calls = 0;
    r.push_back(guarded(f, x, y, std::is_constant_evaluated(), raised));
    r.push_back(raised); r.push_back(w.calls);
  }
  constexpr void by_value(F f, int x, int y, IV& r) { ask(f, x, y, r); ask(f, x, y, r); }
  constexpr void note(int s, int t) { full[s] = full[t]; depth[s] = depth[t]; kind[s] = kind[t]; }
  constexpr void apply(int op, IV& a, IV& r) {
    Counting c;
    int s = a[0], t = a[1];
    switch (op) {
      case O_make: case O_set: load(s, op == O_make, a[1], a[2], a[3], r); break;
      case O_copy: { const F& z = *p[t]; F* n = new F(z); delete p[s]; p[s] = n; note(s, t); break; }
      case O_assign: { const F& z = *p[t]; F& b = *p[s] = z; if (&b != p[s]) r.push_back(-1); note(s, t); break; }
      case O_move: { F* n = new F(std::move(*p[t])); delete p[s]; p[s] = n; note(s, t); full[t] = 0; break; }
      case O_massign: *p[s] = std::move(*p[t]); note(s, t); full[t] = 0; break;
      case O_swap: { using std::swap; swap(*p[s], *p[t]); swap(full[s], full[t]); swap(depth[s], depth[t]); swap(kind[s], kind[t]); break; }
      case O_wrap: { F z(Ad<Nest>{Nest{*p[t]}}); *p[s] = std::move(z); note(s, t); ++depth[s]; break; }
      case O_call: ask(*p[s], a[1], a[2], r); break;
      case O_bycopy: by_value(*p[s], a[1], a[2], r); break;
    }
  }
  constexpr void failed(IV&) const {}
  static constexpr bool may_fail(int op, IV& a) {
    if ((op == O_make || op == O_set) && a[3]) a[3] += 2;     // without a look at the original, which takes a copy
    return op != O_call && op != O_bycopy && op != O_swap;
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), k = g.below(100);
    auto x = [&] { return !pf.ct && g.chance(1, 12) ? 13 : g.below(9); };
    a = {s};
    if (k < 22) { const int ks[] = {0, 1, 2, 3, 4, 4, 4, 6, 7, 8, 3}; int z = ks[g.below(11)]; op = g.chance(1, 2) ? O_make : O_set; a = {s, z, g.in(1, 4), z == 4 ? g.below(3) : 0}; }
    else if (k < 30) { op = O_assign; a.push_back(t); }
    else if (k < 46 && s != t) { const int os[] = {O_copy, O_move, O_massign, O_swap}; op = os[g.below(4)]; a.push_back(t); }
    else if (k < 54 && full[t] && depth[t] < 3) { op = O_wrap; a.push_back(t); }
    else if (full[s]) { op = g.chance(1, 5) ? O_bycopy : O_call; a = {s, x(), x()}; }
    else { op = O_assign; a.push_back(t); }
    return true;
  }
};
