#pragma once
#include "common.hpp"
#include <cest/forward_list.hpp>

template <class T, int K, int H> struct FListSut : SutBase {
#define L(X) X(make) X(insert) X(insert_own) X(insert_at) X(insert_keep) X(erase) X(erase_range) X(erase_at) X(erase_tail) X(push_front) \
  X(push_front_own) X(pop_front) X(clear) X(set) X(set_front) X(set_at) X(front) X(view) X(same) X(hold) X(drop) X(next) X(copy) X(assign) X(swap) X(take) X(mtake)
  SUT_OPS(L)
#undef L
  using D = cest::forward_list<T, SUT_ALLOC<T>>;
  using It = typename D::iterator;
  D* o[K];
  struct Held { int slot = -1; It it{}; const T* ref = nullptr; };   // ref null: before_begin
  Held h[H ? H : 1];
  constexpr FListSut() { for (auto& p : o) p = new D(); }
  FListSut(const FListSut&) = delete;
  constexpr ~FListSut() { for (auto& p : o) delete p; }
  static constexpr int count(const D& d) { int n = 0; for (auto it = d.begin(); it != d.end() && n < WALK_CAP; ++it) ++n; return n; }
  constexpr int len(int s) const { return count(*o[s]); }
  static constexpr It adv(D& d, int p) { It it = d.before_begin(); for (int i = -1; i < p; ++i) ++it; return it; }
  static constexpr int dist(D& d, It x) {
    int n = 0;
    if (x == d.before_begin()) return -1;
    for (It it = d.begin(); !(it == x); ++it) if (it == d.end() || ++n > WALK_CAP) return -7;
    return n;
  }
  constexpr void drop_if(int s, bool el_only) { for (auto& x : h) if (x.slot == s && (!el_only || x.ref)) x = Held{}; }
  // forget the held iterators strictly between two positions
  constexpr void drop_range(int s, It from, It to) {
    D& d = *o[s];
    int n = 0;
    for (++from; !(from == to) && !(from == d.end()) && n < WALK_CAP; ++from, ++n) for (auto& x : h) if (x.slot == s && x.it == from) x = Held{};
  }
  constexpr void hold(int i, int s, It it) {
    h[i] = Held{}; h[i].slot = s; h[i].it = it;
    if (!(it == o[s]->before_begin())) h[i].ref = &*it;
  }
  constexpr void put(int s, D* n) { drop_if(s, false); delete o[s]; o[s] = n; }
  constexpr void observe(IV& obs) const {
    for (auto p : o) {
      const D& d = *p;
      int n = count(d), k = 0;
      obs.push_back(d.empty() == (n == 0) && meta(d, n) ? n : -1);
      for (auto it = d.begin(); it != d.end() && k < WALK_CAP; ++it, ++k) obs.push_back(val(*it));
    }
    for (int i = 0; i < H; ++i) {
      const Held& x = h[i];
      if (x.slot < 0) { obs.push_back(-1); obs.push_back(-9); obs.push_back(-1); continue; }
      D& d = *o[x.slot];
      obs.push_back(x.slot);
      obs.push_back(dist(d, x.it));
      if (!x.ref) obs.push_back(-1);
      else obs.push_back(x.ref == &*x.it && x.ref == x.it.operator->() ? val(*x.it) : -2);
    }
  }
  constexpr It ins(D& d, It at, int v, int k) {
    if (k == 0) { const T x(v); return d.insert_after(at, x); }
    return d.insert_after(at, T(v));
  }
  constexpr void res(D& d, It it, IV& r) { r.push_back(dist(d, it)); r.push_back(it == d.end() ? -1 : val(*it)); }
  constexpr void apply(int op, IV& a, IV& r) {
    int s = a[0], n = 0;
    bool byheld = op == O_insert_at || op == O_erase_at || op == O_erase_tail || op == O_set_at || op == O_drop || op == O_next;
    int sl = op == O_hold ? a[1] : byheld ? (h[s].slot < 0 ? 0 : h[s].slot) : s;
    D& d = *o[sl];
    const D& cd = d;
    switch (op) {
      case O_make: put(s, new D()); break;
      case O_insert: res(d, ins(d, adv(d, a[1]), a[2], a[3]), r); break;
      case O_insert_own: { const T& x = *adv(d, a[2]); res(d, d.insert_after(adv(d, a[1]), x), r); break; }
      case O_insert_at: res(d, ins(d, h[s].it, a[1], a[2]), r); break;
      case O_insert_keep: { It it = ins(d, adv(d, a[1]), a[2], 0); hold(a[3], s, it); break; }
      case O_erase: { It at = adv(d, a[1]), to = at; ++to; ++to; drop_range(s, at, to); res(d, d.erase_after(at), r); break; }
      case O_erase_range: { It at = adv(d, a[1]), to = adv(d, a[2]); if (a[2] == len(s)) to = d.end(); drop_range(s, at, to); res(d, d.erase_after(at, to), r); break; }
      case O_erase_at: { It at = h[s].it, to = at; ++to; ++to; drop_range(sl, at, to); res(d, d.erase_after(at), r); break; }
      case O_erase_tail: { It at = h[s].it; drop_range(sl, at, d.end()); res(d, d.erase_after(at, d.end()), r); break; }
      case O_push_front: if (a[2] == 0) { const T x(a[1]); d.push_front(x); } else d.push_front(T(a[1])); break;
      case O_push_front_own: { const T& x = *adv(d, a[1]); d.push_front(x); break; }
      case O_pop_front: { It to = d.begin(); ++to; drop_range(s, d.before_begin(), to); d.pop_front(); break; }
      case O_clear: drop_if(s, true); d.clear(); break;
      case O_set: *adv(d, a[1]) = T(a[2]); break;
      case O_set_front: d.front() = T(a[1]); break;
      case O_set_at: *h[s].it = T(a[1]); break;
      case O_front: r.push_back(val(d.front())); r.push_back(val(cd.front())); break;
      case O_view:
        if (a[1] == 7) { all_views(*this, a, r, 7); break; }
        switch (a[1]) {
          case 0: for (auto it = d.begin(); it != d.end() && n < WALK_CAP; ++it, ++n) r.push_back(val(*it)); break;
          case 1: for (auto it = cd.begin(); it != cd.end() && n < WALK_CAP; ++it, ++n) r.push_back(val(*it.operator->())); break;
          case 2: for (auto it = d.cbegin(); it != d.cend() && n < WALK_CAP; ++n) { auto was = it++; r.push_back(val(*was)); } break;
          case 3: for (const T& x : cd) { r.push_back(val(x)); if (++n > WALK_CAP) break; } break;
          case 4: walk_up<typename D::iterator>(d.begin(), d.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          case 5: walk_up<typename D::const_iterator>(cd.begin(), cd.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          default: { auto it = d.before_begin(); auto was = it++; if (was != d.before_begin()) r.push_back(-1); for (; it != d.end() && n < WALK_CAP; ++n) { auto w = it++; r.push_back(val(*w)); } break; }
        }
        break;
      case O_same: {
        It x = adv(d, a[1]), y = adv(d, a[2]);
        if (a[1] == len(s)) x = d.end();
        typename D::const_iterator u = x, v = y;
        r.push_back(x == y); r.push_back(!(x != y)); r.push_back(u == v && !(u != v));
        break;
      }
      case O_hold: hold(s, a[1], adv(d, a[2])); break;
      case O_drop: h[s] = Held{}; break;
      case O_next: { It it = h[s].it; ++it; hold(s, h[s].slot, it); break; }
      case O_copy: put(s, new D(*o[a[1]])); break;
      case O_assign: drop_if(s, true); d = *o[a[1]]; break;
      case O_take: drop_if(a[1], false); put(s, new D(std::move(*o[a[1]]))); o[a[1]]->clear(); break;
      case O_mtake: drop_if(a[1], false); drop_if(s, false); d = std::move(*o[a[1]]); o[a[1]]->clear(); break;
      case O_swap: d.swap(*o[a[1]]); for (auto& x : h) if (x.ref) x.slot = x.slot == s ? a[1] : x.slot == a[1] ? s : x.slot; break;
    }
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), n = len(s), M = pf.maxlen;
    a = {s};
    int k = g.below(100), i = H ? g.below(H) : 0;
    bool on = H && h[i].slot >= 0;
    if (k < 58) {
      bool grow = n == 0 || (n < M && want_grow(g));
      if (grow) switch (g.below(H ? 7 : 5)) {
        case 0: op = O_push_front; a.push_back(rv(g)); a.push_back(g.below(2)); break;
        case 1: if (n) { op = O_push_front_own; a.push_back(g.below(n)); break; } [[fallthrough]];
        case 2: if (n) { op = O_insert_own; a.push_back(g.in(-1, n - 1)); a.push_back(g.below(n)); break; } [[fallthrough]];
        case 3: case 4: op = O_insert; a.push_back(g.in(-1, n - 1)); a.push_back(rv(g)); a.push_back(g.below(2)); break;
        case 5: op = O_insert_keep; a.push_back(g.in(-1, n - 1)); a.push_back(rv(g)); a.push_back(i); break;
        default: if (on && len(h[i].slot) < M) { a = {i}; op = O_insert_at; a.push_back(rv(g)); a.push_back(g.below(2)); }
                 else { op = O_push_front; a.push_back(rv(g)); a.push_back(0); }
      }
      else switch (g.below(H ? 5 : 3)) {
        case 0: op = O_pop_front; break;
        case 1: { int p = g.in(-1, n - 1); int l = g.chance(1, 4) ? g.in(p + 1, n) : g.in(p + 1, p + 3 < n ? p + 3 : n); op = O_erase_range; a.push_back(p); a.push_back(l); break; }
        case 2: op = O_erase; a.push_back(g.in(-1, n - 2)); break;
        default: {
          bool some = on && dist(*o[h[i].slot], h[i].it) + 1 < len(h[i].slot);
          if (some) { a = {i}; op = g.chance(1, 4) ? O_erase_tail : O_erase_at; } else op = O_pop_front; }
      }
    }
    else if (k < 62 && n) { op = O_set; a.push_back(g.below(n)); a.push_back(rv(g)); }
    else if (k < 64 && n) { op = g.chance(1, 2) ? O_front : O_set_front; if (op == O_set_front) a.push_back(rv(g)); }
    else if (k < 71) { op = O_view; a.push_back(pf.ct || g.chance(1, 8) ? 7 : g.below(7)); }
    else if (k < 73) { op = O_same; a.push_back(g.in(0, n)); a.push_back(g.in(0, n)); }
    else if (k < 88 && H) {
      a = {i};
      if (!on || g.chance(1, 6)) { op = O_hold; a.push_back(s); a.push_back(g.in(-1, n - 1)); }
      else if (h[i].ref && g.chance(1, 3)) { op = O_set_at; a.push_back(rv(g)); }
      else if (dist(*o[h[i].slot], h[i].it) + 1 < len(h[i].slot)) op = O_next;
      else op = O_drop;
    }
    else if (k < 89) op = O_make;
    else if (k < 91) op = O_clear;
    else if (k < 94 && s != t) { op = O_copy; a.push_back(t); }
    else if (k < 97) { op = O_swap; a.push_back(t); }
    else if (k < 99 || s == t) { op = O_assign; a.push_back(t); }
    else { op = g.chance(1, 2) ? O_take : O_mtake; a.push_back(t); }
    return true;
  }
};
