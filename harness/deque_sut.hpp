#pragma once
#include "common.hpp"
#include <cest/deque.hpp>
#include <iterator>

template <class T, int K> struct DequeSut : SutBase {
#define L(X) X(make) X(make_il) X(push_back) X(push_back_mv) X(push_front) X(push_front_mv) X(push_back_own) X(push_front_own) \
  X(pop_back) X(pop_front) X(clear) X(set) X(set_it) X(set_end) X(ends) X(view) X(diff) X(copy) X(assign) X(take) X(mtake)
  SUT_OPS(L)
#undef L
  using D = cest::deque<T, SUT_ALLOC<T>>;
  D* o[K];
  // pointers to the elements, taken when they were pushed (front part reversed)
  DV<const T*> hf[K], hb[K];
  constexpr DequeSut() { for (auto& p : o) p = new D(); }
  DequeSut(const DequeSut&) = delete;
  constexpr ~DequeSut() { for (auto& p : o) delete p; }
  constexpr int len(int s) const { return int(o[s]->size()); }
  constexpr void retake(int s) {
    hf[s].clear(); hb[s].clear();
    for (std::size_t i = 0; i < o[s]->size(); ++i) hb[s].push_back(&(*o[s])[i]);
  }
  constexpr void resync() { for (int s = 0; s < K; ++s) retake(s); }   // after a call that failed
  constexpr void put(int s, D* n) { delete o[s]; o[s] = n; retake(s); }
  constexpr void observe(IV& obs) const {
    for (auto p : o) {
      const D& d = *p;
      int n = int(d.size());
      obs.push_back(d.empty() == (n == 0) && meta(d, n) ? n : -1);
      for (int i = 0; i < n && i < WALK_CAP; ++i) obs.push_back(val((*p)[std::size_t(i)]));
    }
  }
  constexpr void apply(int op, IV& a, IV& r) {
    int s = a[0];
    D& d = *o[s];
    const D& cd = d;
    int n = 0;
    switch (op) {
      case O_make: put(s, new D()); break;
      case O_make_il: if constexpr (copies<T>)
        switch (a.size() - 1) {
          case 0: put(s, made<D>(s, std::initializer_list<T>{})); break;
          case 1: put(s, made<D>(s, std::initializer_list<T>{T(a[1])})); break;
          case 2: put(s, made<D>(s, std::initializer_list<T>{T(a[1]), T(a[2])})); break;
          default: put(s, made<D>(s, std::initializer_list<T>{T(a[1]), T(a[2]), T(a[3])})); break;
        }
        break;
      case O_push_back: if constexpr (copies<T>) { const T x(a[1]); d.push_back(x); hb[s].push_back(&d.back()); break; }
      case O_push_back_mv: { T x(a[1]); d.push_back(std::move(x)); hb[s].push_back(&d.back()); break; }
      case O_push_front: if constexpr (copies<T>) { const T x(a[1]); d.push_front(x); hf[s].push_back(&d.front()); break; }
      case O_push_front_mv: { T x(a[1]); d.push_front(std::move(x)); hf[s].push_back(&d.front()); break; }
      case O_push_back_own: if constexpr (copies<T>) d.push_back(cd[std::size_t(a[1])]); hb[s].push_back(&d.back()); break;
      case O_push_front_own: if constexpr (copies<T>) d.push_front(cd[std::size_t(a[1])]); hf[s].push_back(&d.front()); break;
      case O_pop_back: d.pop_back(); if (!hb[s].empty()) hb[s].pop_back(); else hf[s].erase(hf[s].begin()); break;
      case O_pop_front: d.pop_front(); if (!hf[s].empty()) hf[s].pop_back(); else hb[s].erase(hb[s].begin()); break;
      case O_clear: d.clear(); hf[s].clear(); hb[s].clear(); break;
      case O_set: d[std::size_t(a[1])] = T(a[2]); break;
      case O_set_it: { auto it = d.begin(); for (int i = 0; i < a[1]; ++i) ++it; *it = T(a[2]); break; }
      case O_set_end: if (a[1]) d.back() = T(a[2]); else d.front() = T(a[2]); break;
      case O_ends: r.push_back(val(d.front())); r.push_back(val(d.back())); r.push_back(val(cd.front())); r.push_back(val(cd.back())); break;
      case O_view:
        if (a[1] == 16) { all_views(*this, a, r, 16); break; }
        switch (a[1]) {
          case 0: for (auto it = d.begin(); it != d.end() && n < WALK_CAP; ++it, ++n) r.push_back(val(*it)); break;
          case 1: for (auto it = cd.begin(); it != cd.end() && n < WALK_CAP; ++it, ++n) r.push_back(val(*it)); break;
          case 2: for (auto it = d.cbegin(); it != d.cend() && n < WALK_CAP; ++n) r.push_back(val(*it++)); break;
          case 3: for (auto it = d.end(); it != d.begin() && n < WALK_CAP; ++n) { --it; r.push_back(val(*it)); } break;
          case 4: for (auto it = cd.end(); it != cd.begin() && n < WALK_CAP; ++n) { auto was = it--; r.push_back(was != it ? val(*it) : -1); } break;
          case 5: for (std::size_t i = 0; i < cd.size(); ++i) r.push_back(val(cd[i])); break;
          case 6: for (auto it = typename D::const_reverse_iterator(cd.end()); it != typename D::const_reverse_iterator(cd.begin()) && n < WALK_CAP; ++it, ++n) r.push_back(val(*it)); break;
          case 7: for (const T& x : d) { r.push_back(val(x)); if (++n > WALK_CAP) break; } break;
          case 8:
            for (std::size_t i = hf[s].size(); i-- > 0; ++n) r.push_back(hf[s][i] == &d[std::size_t(n)] ? val(*hf[s][i]) : -1);
            for (std::size_t i = 0; i < hb[s].size(); ++i, ++n) r.push_back(hb[s][i] == &d[std::size_t(n)] ? val(*hb[s][i]) : -1);
            break;
          case 9: for (auto it = d.begin(); it != d.end() && n < WALK_CAP; ++n) { auto was = it++; r.push_back(val(*was)); } break;
          case 10: for (auto it = d.cend(); it != d.cbegin() && n < WALK_CAP; ++n) { it--; r.push_back(val(*it.operator->())); } break;
          case 11: walk_up<typename D::iterator>(d.begin(), d.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          case 12: walk_down<typename D::iterator>(d.begin(), d.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          case 13: walk_up<typename D::const_iterator>(cd.begin(), cd.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          case 14: walk_down<typename D::const_iterator>(cd.begin(), cd.end(), [&](const auto& x, bool ok) { r.push_back(ok ? val(x) : -1); }); break;
          default: for (const T& x : cd) { r.push_back(val(x)); if (++n > WALK_CAP) break; } break;
        }
        break;
      case O_diff: {
        auto x = d.begin(), y = d.begin();
        auto u = cd.begin(), v = cd.begin();
        for (int i = 0; i < a[1]; ++i) { ++x; ++u; }
        for (int i = 0; i < a[2]; ++i) { ++y; ++v; }
        if (a[1] == len(s)) { x = d.end(); u = d.cend(); }
        r.push_back(int(x - y)); r.push_back(int(u - v)); r.push_back(x == y); r.push_back(!(u != v));
        break;
      }
      case O_copy: if constexpr (copies<T>) put(s, new D(*o[a[1]])); break;
      case O_assign: if constexpr (copies<T>) d = *o[a[1]]; retake(s); break;
      case O_take: if constexpr (copies<T>) put(s, new D(std::move(*o[a[1]]))); o[a[1]]->clear(); retake(a[1]); break;
      case O_mtake: if constexpr (copies<T>) d = std::move(*o[a[1]]); o[a[1]]->clear(); retake(s); retake(a[1]); break;
    }
  }
  // which end is worked on: phases make the deque walk through its blocks
  int mode = 0;
  static constexpr bool needs_copy(int op) {
    return op == O_make_il || op == O_push_back || op == O_push_front || op == O_push_back_own || op == O_push_front_own || op == O_copy || op == O_assign || op == O_take || op == O_mtake;
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    do any(g, op, a); while (!copies<T> && needs_copy(op));
    return true;
  }
  constexpr bool any(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), n = len(s), M = pf.maxlen;
    a = {s};
    int k = g.below(100);
    if (g.chance(1, 30)) mode = g.below(5);
    if (k < 72) {
      bool grow = n == 0 || (n < M && want_grow(g));
      bool front = mode == 0 ? grow : mode == 1 ? !grow : mode == 2 ? true : mode == 3 ? false : g.chance(1, 2);
      if (grow) {
        int j = g.below(4);
        if (j == 0 && n) { op = front ? O_push_front_own : O_push_back_own; a.push_back(g.below(n)); }
        else { op = j == 1 ? (front ? O_push_front_mv : O_push_back_mv) : front ? O_push_front : O_push_back; a.push_back(rv(g)); }
      } else op = front ? O_pop_front : O_pop_back;
    }
    else if (k < 75 && n) { op = g.chance(1, 2) ? O_set : O_set_it; a.push_back(g.below(n)); a.push_back(rv(g)); }
    else if (k < 77 && n) { op = O_set_end; a.push_back(g.below(2)); a.push_back(rv(g)); }
    else if (k < 79 && n) op = O_ends;
    else if (k < 87) { op = O_view; a.push_back(pf.ct || g.chance(1, 8) ? 16 : g.below(16)); }
    else if (k < 91) { op = O_diff; a.push_back(g.in(0, n)); a.push_back(g.in(0, n)); }
    else if (k < 93) op = g.chance(1, 3) ? O_make : O_clear;
    else if (k < 94) { op = O_make_il; for (int i = g.below(4); i > 0; --i) a.push_back(rv(g)); }
    else if (k < 96 && s != t) { op = O_copy; a.push_back(t); }
    else if (k < 98) { op = O_assign; a.push_back(t); }
    else if (k < 99 && s != t) { op = g.chance(1, 2) ? O_take : O_mtake; a.push_back(t); }
    else op = O_clear;
    return true;
  }
};
