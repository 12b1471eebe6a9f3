#pragma once
#include "common.hpp"
#include <cest/set.hpp>

// comparators: on v / Div, ascending or descending; callable with plain ints
// (the key alone) on either side
template <class T, int Div, bool Desc> struct KeyCmp {
  static constexpr int key(const T& x) { return val(x) / Div * 2; }
  struct Probe { int k; };
  static constexpr int key(Probe p) { return p.k * 2; }
  // between the keys; taken for a T it would be one of them
  struct Near { int v; constexpr operator T() const { return T(v); } };
  static constexpr int key(Near p) { return p.v / Div * 2 + 1; }
  template <class A, class B> constexpr bool operator()(const A& a, const B& b) const { return Desc ? key(b) < key(a) : key(a) < key(b); }
  static constexpr Probe probe(int v) { return {v / Div}; }
  static constexpr Near beside(int v) { return {v}; }
};
// with a comparator that compares what it is given
struct IntProbe {
  static constexpr long probe(int v) { return v; }
  static constexpr double beside(int v) { return v + 0.5; }
};
struct EProbe { static constexpr int probe(int v) { return v; } };

template <class T, class Cmp, class P, int K, int H> struct SetSut : SutBase {
#define L(X) X(make) X(insert) X(insert_hint) X(insert_own) X(insert_keep) X(find) X(find_keep) X(clear) X(view) X(same) \
  X(hold) X(drop) X(next) X(copy) X(assign) X(take) X(mtake)
  SUT_OPS(L)
#undef L
  using D = cest::set<T, Cmp, SUT_ALLOC<T>>;
  using It = typename D::iterator;
  D* o[K];
  struct Held { int slot = -1; It it{}; const T* ref = nullptr; };   // ref null: end
  Held h[H ? H : 1];
  constexpr SetSut() { for (auto& p : o) p = new D(); }
  SetSut(const SetSut&) = delete;
  constexpr ~SetSut() { for (auto& p : o) delete p; }
  constexpr int len(int s) const { return int(o[s]->size()); }
  static constexpr It adv(D& d, int p) { It it = d.begin(); for (int i = 0; i < p; ++i) ++it; return it; }
  static constexpr int dist(D& d, It x) {
    int n = 0;
    for (It it = d.begin(); !(it == x); ++it) if (it == d.end() || ++n > WALK_CAP) return -7;
    return n;
  }
  constexpr void drop_if(int s, bool el_only) { for (auto& x : h) if (x.slot == s && (!el_only || x.ref)) x = Held{}; }
  constexpr void hold(int i, int s, It it) {
    h[i] = Held{}; h[i].slot = s; h[i].it = it;
    if (it != o[s]->end()) h[i].ref = &*it;
  }
  constexpr void put(int s, D* n) { drop_if(s, false); delete o[s]; o[s] = n; }
  constexpr void observe(IV& obs) const {
    for (auto p : o) {
      const D& d = *p;
      int n = int(d.size()), k = 0;
      obs.push_back(d.empty() == (n == 0) && meta(d, n) ? n : -1);
      for (auto it = d.begin(); it != d.end() && k < WALK_CAP; ++it, ++k) obs.push_back(val(*it));
    }
    for (int i = 0; i < H; ++i) {
      const Held& x = h[i];
      if (x.slot < 0) { obs.push_back(-1); obs.push_back(-1); obs.push_back(-1); continue; }
      D& d = *o[x.slot];
      obs.push_back(x.slot);
      obs.push_back(dist(d, x.it));
      if (!x.ref) obs.push_back(-1);
      else obs.push_back(x.ref == &*x.it && x.ref == x.it.operator->() ? val(*x.it) : -2);
    }
  }
  constexpr void res(D& d, It it, IV& r) { r.push_back(dist(d, it)); r.push_back(it == d.end() ? -1 : val(*it)); }
  constexpr void apply(int op, IV& a, IV& r) {
    int s = a[0], n = 0;
    int sl = op == O_hold ? a[1] : op == O_drop || op == O_next ? (h[s].slot < 0 ? 0 : h[s].slot) : s;
    D& d = *o[sl];
    const D& cd = d;
    switch (op) {
      case O_make: put(s, new D()); break;
      case O_insert: { const T x(a[1]); auto pr = d.insert(x); res(d, pr.first, r); r.push_back(pr.second); break; }
      case O_insert_hint: { const T x(a[2]); res(d, d.insert(adv(d, a[1]), x), r); break; }
      case O_insert_own: { auto pr = d.insert(*adv(d, a[1])); res(d, pr.first, r); r.push_back(pr.second); break; }
      case O_insert_keep: { const T x(a[1]); auto pr = d.insert(x); hold(a[2], s, pr.first); break; }
      case O_find:
        switch (a[2]) {
          case 0: { const T x(a[1]); res(d, d.find(x), r); break; }
          case 1: { const T x(a[1]); res(d, cd.find(x), r); break; }
          case 2: { auto p = P::probe(a[1]); res(d, d.find(p), r); break; }
          case 3: { auto p = P::probe(a[1]); res(d, cd.find(p), r); break; }
          case 4: if constexpr (requires { P::beside(1); }) { auto p = P::beside(a[1]); res(d, d.find(p), r); } else { const T x(-12345); res(d, d.find(x), r); } break;
          default: if constexpr (requires { P::beside(1); }) { auto p = P::beside(a[1]); res(d, cd.find(p), r); } else { const T x(-12345); res(d, cd.find(x), r); } break;
        }
        break;
      case O_find_keep: { const T x(a[1]); hold(a[2], s, d.find(x)); break; }
      case O_clear: drop_if(s, true); d.clear(); break;
      case O_view:
        if (a[1] == 7) { all_views(*this, a, r, 7); break; }
        switch (a[1]) {
          case 0: for (auto it = d.begin(); it != d.end() && n < WALK_CAP; ++it, ++n) r.push_back(val(*it)); break;
          case 1: for (auto it = d.begin(); it != d.end() && n < WALK_CAP; ++n) { auto was = it++; r.push_back(val(*was)); } break;
          case 2: for (auto it = cd.cbegin(); it != cd.cend() && n < WALK_CAP; ++it, ++n) r.push_back(val(*it.operator->())); break;
          case 3: for (const T& x : d) { r.push_back(val(x)); if (++n > WALK_CAP) break; } break;
          case 4: walk_up<typename D::iterator>(d.begin(), d.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          case 5: walk_up<typename D::const_iterator>(cd.begin(), cd.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          default: for (const T& x : cd) { r.push_back(val(x)); if (++n > WALK_CAP) break; } break;
        }
        break;
      case O_same: { It x = adv(d, a[1]), y = adv(d, a[2]); if (a[1] == len(s)) x = d.end(); r.push_back(x == y); r.push_back(x != y); break; }
      case O_hold: hold(s, a[1], adv(d, a[2])); break;
      case O_drop: h[s] = Held{}; break;
      case O_next: { It it = h[s].it; ++it; hold(s, h[s].slot, it); break; }
      case O_copy: put(s, new D(*o[a[1]])); break;
      case O_assign: drop_if(s, false); d = *o[a[1]]; break;
      case O_take: drop_if(a[1], false); put(s, new D(std::move(*o[a[1]]))); o[a[1]]->clear(); break;
      case O_mtake: drop_if(a[1], false); drop_if(s, false); d = std::move(*o[a[1]]); o[a[1]]->clear(); break;
    }
  }
  // key patterns: random, ascending, descending, zig-zag, dense
  int pat = 0, ctr = 0;
  constexpr int kv(Rng& g) {
    int M = pf.maxlen * 2 + 2;
    if (g.chance(1, 30)) pat = g.below(5);
    ++ctr;
    switch (pat) {
      case 1: return 1 + ctr % M;
      case 2: return M - ctr % M;
      case 3: return ctr % 2 ? 1 + (ctr / 2) % M : M - (ctr / 2) % M;
      case 4: return 1 + (ctr * 7) % M;
      default: return 1 + g.below(M);
    }
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), n = len(s);
    a = {s};
    int k = g.below(100), i = H ? g.below(H) : 0;
    if (n > pf.maxlen && g.chance(1, 4)) { op = O_clear; return true; }
    if (k < 44) { op = O_insert; a.push_back(kv(g)); }
    else if (k < 49) { op = O_insert_hint; a.push_back(g.in(0, n)); a.push_back(kv(g)); }
    else if (k < 51 && n) { op = O_insert_own; a.push_back(g.below(n)); }
    else if (k < 63) { op = O_find; a.push_back(kv(g)); a.push_back(g.below(6)); }
    else if (k < 68) { op = O_view; a.push_back(pf.ct || g.chance(1, 8) ? 7 : g.below(7)); }
    else if (k < 70) { op = O_same; a.push_back(g.in(0, n)); a.push_back(g.in(0, n)); }
    else if (k < 88 && H) {
      a = {i};
      if (h[i].slot < 0 || g.chance(1, 5)) {
        int j = g.below(3);
        if (j == 0) { op = O_hold; a.push_back(s); a.push_back(g.in(0, n)); }
        else { op = j == 1 ? O_insert_keep : O_find_keep; a = {s, kv(g), i}; }
      }
      else if (h[i].ref) op = O_next;
      else op = O_drop;
    }
    else if (k < 89) op = O_make;
    else if (k < 90) op = O_clear;
    else if (k < 94 && s != t) { op = O_copy; a.push_back(t); }
    else if (k < 97) { op = O_assign; a.push_back(t); }
    else if (k < 98 && s != t) { op = g.chance(1, 2) ? O_take : O_mtake; a.push_back(t); }
    else { op = O_insert; a.push_back(kv(g)); }
    return true;
  }
};
