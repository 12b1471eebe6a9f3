#pragma once
#include "common.hpp"
#include "set_sut.hpp"
#include <cest/map.hpp>

template <class T, class Cmp, class P, int K, int H> struct MapSut : SutBase {
#define L(X) X(make) X(insert) X(insert_own) X(insert_keep) X(insert_set) X(find) X(find_keep) X(write) X(write_at) X(clear) X(view) X(same) \
  X(hold) X(drop) X(next) X(copy) X(assign) X(take) X(mtake)
  SUT_OPS(L)
#undef L
  using D = cest::map<T, T, Cmp, SUT_ALLOC<std::pair<const T, T>>>;
  using It = typename D::iterator;
  using VT = typename D::value_type;
  D* o[K];
  struct Held { int slot = -1; It it{}; VT* ref = nullptr; };   // ref null: end
  Held h[H ? H : 1];
  constexpr MapSut() { for (auto& p : o) p = new D(); }
  MapSut(const MapSut&) = delete;
  constexpr ~MapSut() { for (auto& p : o) delete p; }
  constexpr int len(int s) const { return int(o[s]->size()); }
  // begin() is const only: a mutable iterator comes from find
  static constexpr It first(D& d) { return d.begin() == d.cend() ? d.end() : d.find(d.begin()->first); }
  static constexpr It adv(D& d, int p) { It it = first(d); for (int i = 0; i < p; ++i) ++it; return it; }
  template <class I> static constexpr int dist(D& d, I x) {
    int n = 0;
    typename D::const_iterator y = x;
    for (auto it = d.begin(); !(it == y); ++it) if (it == d.cend() || ++n > WALK_CAP) return -7;
    return n;
  }
  constexpr void drop_if(int s, bool el_only) { for (auto& x : h) if (x.slot == s && (!el_only || x.ref)) x = Held{}; }
  constexpr void hold(int i, int s, It it) {
    h[i] = Held{}; h[i].slot = s; h[i].it = it;
    if (it != o[s]->end()) h[i].ref = &*it;
  }
  constexpr void put(int s, D* n) { drop_if(s, false); delete o[s]; o[s] = n; }
  static constexpr void pr(const VT& x, IV& r) { r.push_back(val(x.first)); r.push_back(val(x.second)); }
  constexpr void observe(IV& obs) const {
    for (auto p : o) {
      const D& d = *p;
      int n = int(d.size()), k = 0;
      obs.push_back(d.empty() == (n == 0) && meta(d, n) ? n : -1);
      for (auto it = d.begin(); it != d.end() && k < WALK_CAP; ++it, ++k) pr(*it, obs);
    }
    for (int i = 0; i < H; ++i) {
      const Held& x = h[i];
      if (x.slot < 0) { for (int j = 0; j < 4; ++j) obs.push_back(-1); continue; }
      D& d = *o[x.slot];
      obs.push_back(x.slot);
      obs.push_back(dist(d, x.it));
      if (!x.ref || x.ref != &*x.it || x.ref != x.it.operator->()) { obs.push_back(x.ref ? -2 : -1); obs.push_back(-1); }
      else pr(*x.it, obs);
    }
  }
  template <class I, class End> constexpr void res(D& d, I it, End e, IV& r) {
    r.push_back(dist(d, it));
    if (it == e) { r.push_back(-1); r.push_back(-1); } else pr(*it, r);
  }
  constexpr void apply(int op, IV& a, IV& r) {
    int s = a[0], n = 0;
    int sl = op == O_hold ? a[1] : op == O_drop || op == O_next || op == O_write_at ? (h[s].slot < 0 ? 0 : h[s].slot) : s;
    D& d = *o[sl];
    const D& cd = d;
    switch (op) {
      case O_make: put(s, new D()); break;
      case O_insert: { const VT x{T(a[1]), T(a[2])}; auto q = d.insert(x); res(d, q.first, d.end(), r); r.push_back(q.second); break; }
      case O_insert_own: { auto q = d.insert(*adv(d, a[1])); res(d, q.first, d.end(), r); r.push_back(q.second); break; }
      case O_insert_keep: { const VT x{T(a[1]), T(a[2])}; auto q = d.insert(x); hold(a[3], s, q.first); break; }
      case O_insert_set: { const VT x{T(a[1]), T(a[2])}; auto q = d.insert(x); q.first->second = T(a[3]); break; }
      case O_find:
        switch (a[2]) {
          case 0: { const T x(a[1]); res(d, d.find(x), d.end(), r); break; }
          case 1: { const T x(a[1]); res(d, cd.find(x), cd.end(), r); break; }
          case 2: { auto p = P::probe(a[1]); res(d, d.find(p), d.end(), r); break; }
          case 3: { auto p = P::probe(a[1]); res(d, cd.find(p), cd.end(), r); break; }
          case 4: if constexpr (requires { P::beside(1); }) { auto p = P::beside(a[1]); res(d, d.find(p), d.end(), r); } else { const T x(-12345); res(d, d.find(x), d.end(), r); } break;
          default: if constexpr (requires { P::beside(1); }) { auto p = P::beside(a[1]); res(d, cd.find(p), cd.end(), r); } else { const T x(-12345); res(d, cd.find(x), cd.end(), r); } break;
        }
        break;
      case O_find_keep: { const T x(a[1]); hold(a[2], s, d.find(x)); break; }
      case O_write: { const T x(a[1]); auto it = d.find(x); if (it == d.end()) r.push_back(0); else { (*it).second = T(a[2]); r.push_back(1); } break; }
      case O_write_at: h[s].it->second = T(a[1]); break;
      case O_clear: drop_if(s, true); d.clear(); break;
      case O_view:
        if (a[1] == 8) { all_views(*this, a, r, 8); break; }
        switch (a[1]) {
          case 0: for (auto it = d.begin(); it != d.cend() && n < WALK_CAP; ++it, ++n) pr(*it, r); break;
          case 1: for (auto it = cd.begin(); it != cd.end() && n < WALK_CAP; ++n) { auto was = it++; pr(*was, r); } break;
          case 2: for (auto it = cd.cbegin(); it != cd.cend() && n < WALK_CAP; ++it, ++n) pr(*it.operator->(), r); break;
          case 3: for (const VT& x : cd) { pr(x, r); if (++n > WALK_CAP) break; } break;
          case 4: for (auto it = first(d); it != d.end() && n < WALK_CAP; ++it, ++n) pr(*it, r); break;
          case 5: walk_up<typename D::iterator>(first(d), d.end(), [&](const auto& x, bool ok) { if (ok) pr(x, r); else r.push_back(-1); }); break;
          case 6: walk_up<typename D::const_iterator>(cd.begin(), cd.end(), [&](const auto& x, bool ok) { if (ok) pr(x, r); else r.push_back(-1); }); break;
          default: for (auto it = first(d); it != d.end() && n < WALK_CAP; ++n) { auto was = it++; pr(*was, r); } break;
        }
        break;
      case O_same: {
        It x = adv(d, a[1]), y = adv(d, a[2]);
        if (a[1] == len(s)) x = d.end();
        typename D::const_iterator u = x, v = y;
        r.push_back(x == y); r.push_back(x != y); r.push_back(u == v && !(u != v));
        break;
      }
      case O_hold: hold(s, a[1], adv(d, a[2])); break;
      case O_drop: h[s] = Held{}; break;
      case O_next: { It it = h[s].it; ++it; hold(s, h[s].slot, it); break; }
      case O_copy: put(s, new D(*o[a[1]])); break;
      case O_assign: drop_if(s, false); d = *o[a[1]]; break;
      case O_take: drop_if(a[1], false); put(s, new D(std::move(*o[a[1]]))); o[a[1]]->clear(); break;
      case O_mtake: drop_if(a[1], false); drop_if(s, false); d = std::move(*o[a[1]]); o[a[1]]->clear(); break;
    }
  }
  int pat = 0, ctr = 0;
  constexpr int kv(Rng& g) {
    int M = pf.maxlen * 2 + 2;
    if (g.chance(1, 30)) pat = g.below(5);
    ++ctr;
    switch (pat) {
      case 1: return 1 + ctr % M;
      case 2: return M - ctr % M;
      case 3: return ctr % 2 ? 1 + (ctr / 2) % M : M - (ctr / 2) % M;
      case 4: return 1 + (ctr * 7) % M;
      default: return 1 + g.below(M);
    }
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), n = len(s);
    a = {s};
    int k = g.below(100), i = H ? g.below(H) : 0;
    if (n > pf.maxlen && g.chance(1, 4)) { op = O_clear; return true; }
    if (k < 42) { op = O_insert; a.push_back(kv(g)); a.push_back(rv(g)); }
    else if (k < 46) { op = O_insert_set; a.push_back(kv(g)); a.push_back(rv(g)); a.push_back(rv(g)); }
    else if (k < 48 && n) { op = O_insert_own; a.push_back(g.below(n)); }
    else if (k < 56) { op = O_find; a.push_back(kv(g)); a.push_back(g.below(6)); }
    else if (k < 63) { op = O_write; a.push_back(kv(g)); a.push_back(rv(g)); }
    else if (k < 68) { op = O_view; a.push_back(pf.ct || g.chance(1, 8) ? 8 : g.below(8)); }
    else if (k < 70) { op = O_same; a.push_back(g.in(0, n)); a.push_back(g.in(0, n)); }
    else if (k < 88 && H) {
      a = {i};
      if (h[i].slot < 0 || g.chance(1, 5)) {
        int j = g.below(3);
        if (j == 0) { op = O_hold; a.push_back(s); a.push_back(g.in(0, n)); }
        else if (j == 1) { op = O_insert_keep; a = {s, kv(g), rv(g), i}; }
        else { op = O_find_keep; a = {s, kv(g), i}; }
      }
      else if (h[i].ref) { op = g.chance(1, 2) ? O_next : O_write_at; if (op == O_write_at) a.push_back(rv(g)); }
      else op = O_drop;
    }
    else if (k < 89) op = O_make;
    else if (k < 90) op = O_clear;
    else if (k < 94 && s != t) { op = O_copy; a.push_back(t); }
    else if (k < 97) { op = O_assign; a.push_back(t); }
    else if (k < 98 && s != t) { op = g.chance(1, 2) ? O_take : O_mtake; a.push_back(t); }
    else { op = O_insert; a.push_back(kv(g)); a.push_back(rv(g)); }
    return true;
  }
};
