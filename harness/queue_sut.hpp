#pragma once
#include "common.hpp"
#include <cest/queue.hpp>
#include <cest/list.hpp>

// MV: the queue can be built and assigned from an rvalue
template <class T, class C, int K, bool MV = copies<T>> struct QueueSut : SutBase {
#define L(X) X(make) X(push) X(push_mv) X(push_own) X(pop) X(drain) X(set_end) X(cends) X(copy) X(assign) X(c_push) X(c_clear) X(from) X(from_mv) X(take) X(mtake)
  SUT_OPS(L)
#undef L
  using D = cest::queue<T, C>;
  D* o[K];
  C* d[K];
  constexpr QueueSut() { for (auto& p : o) p = new D(); for (auto& p : d) p = new C(); }
  QueueSut(const QueueSut&) = delete;
  constexpr ~QueueSut() { for (auto& p : o) delete p; for (auto& p : d) delete p; }
  constexpr void put(int s, D* n) { delete o[s]; o[s] = n; }
  template <class Q> static constexpr void ends(Q& q, IV& r) {
    int n = int(q.size());
    r.push_back(q.empty() == (n == 0) ? n : -1);
    if (n) { r.push_back(val(q.front())); r.push_back(val(q.back())); }
  }
  constexpr void observe(IV& obs) const {
    for (auto p : o) ends(*p, obs);
    for (auto p : d) {
      int n = int(p->size()), k = 0;
      obs.push_back(n);
      const C& c = *p;
      for (auto it = c.begin(); it != c.end() && k < WALK_CAP; ++it, ++k) obs.push_back(val(*it));
    }
  }
  constexpr void apply(int op, IV& a, IV& r) {
    int s = a[0];
    D& q = *o[s];
    switch (op) {
      case O_make: put(s, new D()); break;
      case O_push: if constexpr (copies<T>) { const T x(a[1]); q.push(x); break; }
      case O_push_mv: q.push(T(a[1])); break;
      case O_push_own: if constexpr (!copies<T>) break; else if (a[1]) q.push(q.back()); else q.push(q.front()); break;
      case O_pop: q.pop(); break;
      case O_drain: for (int n = 0; !q.empty() && n < WALK_CAP; ++n) { r.push_back(val(q.front())); q.pop(); } break;
      case O_set_end: if (a[1]) q.back() = T(a[2]); else q.front() = T(a[2]); break;
      case O_cends: { const D& c = q; ends(c, r); break; }
      case O_copy: if constexpr (copies<T>) put(s, new D(*o[a[1]])); break;
      case O_take: if constexpr (MV) { put(s, new D(std::move(*o[a[1]]))); *o[a[1]] = D(); } break;
      case O_mtake: if constexpr (MV) { q = std::move(*o[a[1]]); *o[a[1]] = D(); } break;
      case O_assign: if constexpr (copies<T>) q = *o[a[1]]; break;
      case O_c_push: if (a[2]) d[s]->push_back(T(a[1])); else d[s]->push_front(T(a[1])); break;
      case O_c_clear: d[s]->clear(); break;
      case O_from: if constexpr (copies<T>) put(s, new D(*d[a[1]])); break;
      case O_from_mv: if constexpr (MV) put(s, new D(std::move(*d[a[1]]))); d[a[1]]->clear(); break;
    }
  }
  static constexpr bool needs_copy(int op) {
    return op == O_push || op == O_push_own || op == O_copy || op == O_assign || op == O_from || (!MV && (op == O_take || op == O_mtake || op == O_from_mv));
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    do any(g, op, a); while (!copies<T> && needs_copy(op));
    return true;
  }
  constexpr bool any(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), n = int(o[s]->size()), M = pf.maxlen;
    a = {s};
    int k = g.below(100);
    if (k < 74) {
      if (n == 0 || (n < M && want_grow(g))) {
        int j = g.below(4);
        op = j == 0 && n ? O_push_own : j == 1 ? O_push_mv : O_push;
        a.push_back(op == O_push_own ? g.below(2) : rv(g));
      } else op = O_pop;
    }
    else if (k < 75) op = O_drain;
    else if (k < 79 && n) { op = O_set_end; a.push_back(g.below(2)); a.push_back(rv(g)); }
    else if (k < 81) op = O_cends;
    else if (k < 82) op = O_make;
    else if (k < 84 && s != t) { op = O_copy; a.push_back(t); }
    else if (k < 86) { op = O_assign; a.push_back(t); }
    else if (k < 93 && int(d[s]->size()) < M) { op = O_c_push; a.push_back(rv(g)); a.push_back(g.below(2)); }
    else if (k < 94) op = O_c_clear;
    else if (k < 98) { op = O_from; a.push_back(t); }
    else if (k < 99 || s == t) { op = O_from_mv; a.push_back(t); }
    else { op = g.chance(1, 2) ? O_take : O_mtake; a.push_back(t); }
    return true;
  }
};
