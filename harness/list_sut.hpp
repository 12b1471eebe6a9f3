#pragma once
#include "common.hpp"
#include <cest/list.hpp>
#include <iterator>

template <class T, int K, int H> struct ListSut : SutBase {
#define L(X) X(make) X(insert) X(insert_own) X(insert_at) X(insert_keep) X(erase) X(erase_keep) X(erase_at) X(push_back) X(push_front) \
  X(emplace_back) X(emplace_front) X(push_back_own) X(push_front_own) X(pop_back) X(pop_front) X(clear) X(set) X(set_end) X(set_at)    \
  X(ends) X(view) X(same) X(hold) X(drop) X(next) X(prev) X(copy) X(assign) X(take) X(mtake)
  SUT_OPS(L)
#undef L
  using D = cest::list<T, SUT_ALLOC<T>>;
  using It = typename D::iterator;
  D* o[K];
  // held iterators, with a pointer to the element they designated when taken
  struct Held { int slot = -1; It it{}; const T* ref = nullptr; };
  Held h[H ? H : 1];
  constexpr ListSut() { for (auto& p : o) p = new D(); }
  ListSut(const ListSut&) = delete;
  constexpr ~ListSut() { for (auto& p : o) delete p; }
  constexpr int len(int s) const { return int(o[s]->size()); }
  static constexpr It adv(D& d, int p) { It it = d.begin(); for (int i = 0; i < p; ++i) ++it; return it; }
  static constexpr int dist(D& d, It x) {
    int n = 0;
    for (It it = d.begin(); !(it == x); ++it) if (it == d.end() || ++n > WALK_CAP) return -7;
    return n;
  }
  constexpr void drop_all(int s) { for (auto& x : h) if (x.slot == s) x = Held{}; }
  constexpr void drop_el(int s, It it) { for (auto& x : h) if (x.slot == s && x.it == it) x = Held{}; }
  constexpr void hold(int i, int s, It it) {
    h[i] = Held{}; h[i].slot = s; h[i].it = it;
    if (!(it == o[s]->end())) h[i].ref = &*it;
  }
  constexpr void put(int s, D* n) { drop_all(s); delete o[s]; o[s] = n; }
  constexpr void observe(IV& obs) const {
    for (auto p : o) {
      const D& d = *p;
      int n = int(d.size());
      obs.push_back(d.empty() == (n == 0) && meta(d, n) ? n : -1);
      int k = 0;
      for (auto it = d.begin(); it != d.end() && k < WALK_CAP; ++it, ++k) obs.push_back(val(*it));
    }
    for (int i = 0; i < H; ++i) {
      const Held& x = h[i];
      if (x.slot < 0) { obs.push_back(-1); obs.push_back(-1); obs.push_back(-1); continue; }
      D& d = *o[x.slot];
      obs.push_back(x.slot);
      obs.push_back(dist(d, x.it));
      if (x.it == d.end()) obs.push_back(-1);
      else obs.push_back(x.ref == &*x.it && x.ref == x.it.operator->() ? val(*x.it) : -2);
    }
  }
  // the three ways to insert
  constexpr It ins(D& d, It at, int v, int k) {
    if (k == 0) { const T x(v); return d.insert(at, x); }
    if (k == 1) return d.insert(at, T(v));
    return d.emplace(at, v);
  }
  constexpr void res(D& d, It it, IV& r) { r.push_back(dist(d, it)); r.push_back(val(*it)); }
  constexpr void apply(int op, IV& a, IV& r) {
    int s = a[0], n = 0;
    bool byheld = op == O_insert_at || op == O_erase_at || op == O_set_at || op == O_drop || op == O_next || op == O_prev || op == O_hold;
    D& d = *o[op == O_hold ? a[1] : byheld ? (h[s].slot < 0 ? 0 : h[s].slot) : s];
    const D& cd = d;
    switch (op) {
      case O_make: put(s, new D()); break;
      case O_insert: res(d, ins(d, adv(d, a[1]), a[2], a[3]), r); break;
      case O_insert_own: { It at = adv(d, a[1]); const T& x = *adv(d, a[2]); It it = a[3] == 0 ? d.insert(at, x) : d.emplace(at, x); res(d, it, r); break; }
      case O_insert_at: res(d, ins(d, h[s].it, a[1], a[2]), r); break;
      case O_insert_keep: { It it = ins(d, adv(d, a[1]), a[2], a[4]); hold(a[3], s, it); break; }
      case O_erase: { It at = adv(d, a[1]); drop_el(s, at); r.push_back(dist(d, d.erase(at))); break; }
      case O_erase_keep: { It at = adv(d, a[1]); drop_el(s, at); It it = d.erase(at); hold(a[2], s, it); break; }
      case O_erase_at: { It at = h[s].it; drop_el(h[s].slot, at); r.push_back(dist(d, d.erase(at))); break; }
      case O_push_back: if (a[2] == 0) { const T x(a[1]); d.push_back(x); } else d.push_back(T(a[1])); break;
      case O_push_front: if (a[2] == 0) { const T x(a[1]); d.push_front(x); } else d.push_front(T(a[1])); break;
      case O_emplace_back: { T& x = d.emplace_back(a[1]); r.push_back(val(x)); r.push_back(&x == &d.back()); break; }
      case O_emplace_front: { T& x = d.emplace_front(a[1]); r.push_back(val(x)); r.push_back(&x == &d.front()); break; }
      case O_push_back_own: { const T& x = *adv(d, a[1]); d.push_back(x); break; }
      case O_push_front_own: { const T& x = *adv(d, a[1]); d.push_front(x); break; }
      case O_pop_back: { It e = d.end(); --e; drop_el(s, e); d.pop_back(); break; }
      case O_pop_front: drop_el(s, d.begin()); d.pop_front(); break;
      case O_clear: for (auto& x : h) if (x.slot == s && !(x.it == d.end())) x = Held{}; d.clear(); break;
      case O_set: *adv(d, a[1]) = T(a[2]); break;
      case O_set_end: if (a[1]) d.back() = T(a[2]); else d.front() = T(a[2]); break;
      case O_set_at: *h[s].it = T(a[1]); break;
      case O_ends: r.push_back(val(d.front())); r.push_back(val(d.back())); r.push_back(val(cd.front())); r.push_back(val(cd.back())); break;
      case O_view:
        if (a[1] == 14) { all_views(*this, a, r, 14); break; }
        switch (a[1]) {
          case 0: for (auto it = d.begin(); it != d.end() && n < WALK_CAP; ++it, ++n) r.push_back(val(*it)); break;
          case 1: for (auto it = cd.begin(); it != cd.end() && n < WALK_CAP; ++it, ++n) r.push_back(val(*it.operator->())); break;
          case 2: for (auto it = d.cbegin(); it != d.cend() && n < WALK_CAP; ++n) { auto was = it++; r.push_back(val(*was)); } break;
          case 3: for (auto it = d.end(); it != d.begin() && n < WALK_CAP; ++n) { --it; r.push_back(val(*it)); } break;
          case 4: for (auto it = cd.end(); it != cd.begin() && n < WALK_CAP; ++n) { auto was = it--; r.push_back(was != it ? val(*it) : -1); } break;
          case 5: for (const T& x : d) { r.push_back(val(x)); if (++n > WALK_CAP) break; } break;
          case 6: for (auto it = typename D::reverse_iterator(d.end()); it != typename D::reverse_iterator(d.begin()) && n < WALK_CAP; ++it, ++n) r.push_back(val(*it)); break;
          case 7: for (const T& x : cd) { r.push_back(val(x)); if (++n > WALK_CAP) break; } break;
          case 8: for (auto it = typename D::const_reverse_iterator(cd.end()); it != typename D::const_reverse_iterator(cd.begin()) && n < WALK_CAP; ++it, ++n) r.push_back(val(*it)); break;
          case 9: walk_up<typename D::iterator>(d.begin(), d.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          case 10: walk_down<typename D::iterator>(d.begin(), d.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          case 11: walk_up<typename D::const_iterator>(cd.begin(), cd.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          case 12: walk_down<typename D::const_iterator>(cd.begin(), cd.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          default: for (auto it = d.cend(); it != d.cbegin() && n < WALK_CAP; ++n) { it--; r.push_back(val(*it)); } break;
        }
        break;
      case O_same: {
        It x = adv(d, a[1]), y = adv(d, a[2]);
        if (a[1] == len(s)) x = d.end();
        typename D::const_iterator u = x, v = y;
        r.push_back(x == y); r.push_back(!(x != y)); r.push_back(u == v && !(u != v));
        break;
      }
      case O_hold: hold(s, a[1], adv(d, a[2])); break;
      case O_drop: h[s] = Held{}; break;
      case O_next: { It it = h[s].it; if (a.size() > 1) it++; else ++it; hold(s, h[s].slot, it); break; }
      case O_prev: { It it = h[s].it; --it; hold(s, h[s].slot, it); break; }
      case O_copy: put(s, new D(*o[a[1]])); break;
      case O_assign: drop_all(s); d = *o[a[1]]; break;
      case O_take: drop_all(a[1]); put(s, new D(std::move(*o[a[1]]))); o[a[1]]->clear(); break;
      case O_mtake: drop_all(a[1]); drop_all(s); d = std::move(*o[a[1]]); o[a[1]]->clear(); break;
    }
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), n = len(s), M = pf.maxlen;
    a = {s};
    int k = g.below(100);
    if (k < 58) {
      bool grow = n == 0 || (n < M && want_grow(g));
      if (grow) switch (g.below(H ? 9 : 7)) {
        case 0: op = O_push_back; a.push_back(rv(g)); a.push_back(g.below(2)); break;
        case 1: op = O_push_front; a.push_back(rv(g)); a.push_back(g.below(2)); break;
        case 2: op = g.chance(1, 2) ? O_emplace_back : O_emplace_front; a.push_back(rv(g)); break;
        case 3: if (n) { op = g.chance(1, 2) ? O_push_back_own : O_push_front_own; a.push_back(g.below(n)); break; } [[fallthrough]];
        case 4: if (n) { op = O_insert_own; a.push_back(g.in(0, n)); a.push_back(g.below(n)); a.push_back(2 * g.below(2)); break; } [[fallthrough]];
        case 5: case 6: op = O_insert; a.push_back(g.in(0, n)); a.push_back(rv(g)); a.push_back(g.below(3)); break;
        case 7: op = O_insert_keep; a.push_back(g.in(0, n)); a.push_back(rv(g)); a.push_back(g.below(H)); a.push_back(2 * g.below(2)); break;
        default: { int i = g.below(H); if (h[i].slot >= 0 && len(h[i].slot) < M) { a = {i}; op = O_insert_at; a.push_back(rv(g)); a.push_back(g.below(3)); }
                   else { op = O_push_back; a.push_back(rv(g)); a.push_back(0); } }
      }
      else switch (g.below(H ? 5 : 3)) {
        case 0: op = O_pop_back; break;
        case 1: op = O_pop_front; break;
        case 2: op = O_erase; a.push_back(g.below(n)); break;
        case 3: op = O_erase_keep; a.push_back(g.below(n)); a.push_back(g.below(H)); break;
        default: { int i = g.below(H); if (h[i].slot >= 0 && !(h[i].it == o[h[i].slot]->end())) { a = {i}; op = O_erase_at; } else { op = O_erase; a.push_back(g.below(n)); } }
      }
    }
    else if (k < 62 && n) { op = O_set; a.push_back(g.below(n)); a.push_back(rv(g)); }
    else if (k < 64 && n) { op = O_set_end; a.push_back(g.below(2)); a.push_back(rv(g)); }
    else if (k < 65 && n) op = O_ends;
    else if (k < 71) { op = O_view; a.push_back(pf.ct || g.chance(1, 8) ? 14 : g.below(14)); }
    else if (k < 73) { op = O_same; a.push_back(g.in(0, n)); a.push_back(g.in(0, n)); }
    else if (k < 91 && H) {
      int i = g.below(H);
      a = {i};
      bool on = h[i].slot >= 0, el = on && !(h[i].it == o[h[i].slot]->end());
      if (!on || g.chance(1, 6)) { op = O_hold; a.push_back(s); a.push_back(g.in(0, n)); }
      else if (el && g.chance(1, 2)) { op = g.chance(1, 3) ? O_set_at : O_next; if (op == O_set_at) a.push_back(rv(g)); else if (g.chance(1, 2)) a.push_back(1); }
      else if (!(h[i].it == o[h[i].slot]->begin())) op = O_prev;
      else op = O_drop;
    }
    else if (k < 92) op = O_make;
    else if (k < 94) op = O_clear;
    else if (k < 96 && s != t) { op = O_copy; a.push_back(t); }
    else if (k < 98 || s == t) { op = O_assign; a.push_back(t); }
    else { op = g.chance(1, 2) ? O_take : O_mtake; a.push_back(t); }
    return true;
  }
};
