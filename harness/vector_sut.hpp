#pragma once
#include "common.hpp"
#include <cest/vector.hpp>
#include <stdexcept>

template <class T, int K> struct VectorSut : SutBase {
#define L(X) X(make) X(make_n) X(make_il) X(push) X(push_mv) X(push_own) X(pop) X(resize) X(reserve) X(clear) \
  X(erase) X(set) X(set_it) X(set_end) X(at) X(cat) X(set_at) X(at_far) X(ends) X(view) X(copy) X(move_new) X(assign)   \
  X(massign) X(swap) X(eq)
  SUT_OPS(L)
#undef L
  using V = cest::vector<T, SUT_ALLOC<T>>;
  V* o[K];
  constexpr VectorSut() { int s = 0; for (auto& p : o) p = made<V>(s++); }
  VectorSut(const VectorSut&) = delete;
  constexpr ~VectorSut() { for (auto& p : o) delete p; }
  constexpr int len(int s) const { return int(o[s]->size()); }
  constexpr void put(int s, V* n) { delete o[s]; o[s] = n; }

  constexpr void observe(IV& obs) const {
    for (auto p : o) {
      const V& v = *p;
      int n = int(v.size());
      obs.push_back(v.empty() == (n == 0) && meta(v, n) ? n : -1);
      for (int i = 0; i < n && i < WALK_CAP; ++i) obs.push_back(val((*p)[std::size_t(i)]));
    }
  }
  template <class I> static constexpr void walk(I b, I e, IV& r) {
    for (int n = 0; b != e && n < WALK_CAP; ++b, ++n) r.push_back(val(*b));
  }
  constexpr void apply(int op, IV& a, IV& r) {
    V& v = *o[a[0]];
    const V& cv = v;
    switch (op) {
      case O_make: put(a[0], made<V>(a[0])); break;
      case O_make_n: put(a[0], made<V>(a[0], std::size_t(a[1]))); break;
      case O_make_il: if constexpr (copies<T>)
        switch (a.size() - 1) {
          case 0: put(a[0], made<V>(a[0], std::initializer_list<T>{})); break;
          case 1: put(a[0], made<V>(a[0], std::initializer_list<T>{T(a[1])})); break;
          case 2: put(a[0], made<V>(a[0], std::initializer_list<T>{T(a[1]), T(a[2])})); break;
          case 3: put(a[0], made<V>(a[0], std::initializer_list<T>{T(a[1]), T(a[2]), T(a[3])})); break;
          case 4: put(a[0], made<V>(a[0], std::initializer_list<T>{T(a[1]), T(a[2]), T(a[3]), T(a[4])})); break;
          default: put(a[0], made<V>(a[0], std::initializer_list<T>{T(a[1]), T(a[2]), T(a[3]), T(a[4]), T(a[5])})); break;
        }
        break;
      case O_push: if constexpr (copies<T>) { const T x(a[1]); v.push_back(x); break; }
      case O_push_mv: { T x(a[1]); v.push_back(std::move(x)); break; }
      case O_push_own: if constexpr (copies<T>) v.push_back(cv[std::size_t(a[1])]); break;
      case O_pop: v.pop_back(); break;
      case O_resize: v.resize(std::size_t(a[1])); break;
      case O_reserve: v.reserve(std::size_t(a[1])); break;
      case O_clear: v.clear(); break;
      case O_erase: if constexpr (copies<T>) { auto it = v.erase(v.begin() + a[1], v.begin() + a[2]); r.push_back(int(it - v.begin())); break; }
      case O_set: v[std::size_t(a[1])] = T(a[2]); break;
      case O_set_it: *(v.begin() + a[1]) = T(a[2]); break;
      case O_set_end: if (a[1]) v.back() = T(a[2]); else v.front() = T(a[2]); break;
      case O_at: case O_cat: case O_set_at:
        if (std::size_t(a[1]) < cv.size()) {   // no exceptions in constant expressions
          r.push_back(1);
          if (op == O_at) r.push_back(val(v.at(std::size_t(a[1]))));
          if (op == O_cat) r.push_back(val(cv.at(std::size_t(a[1]))));
          if (op == O_set_at) v.at(std::size_t(a[1])) = T(a[2]);
        } else at_throws(op, a, r);
        break;
      case O_at_far: if (!std::is_constant_evaluated()) at_far(a, r); break;
      case O_ends: r.push_back(val(v.front())); r.push_back(val(v.back())); r.push_back(val(cv.front())); r.push_back(val(cv.back())); break;
      case O_view:
        if (a[1] == 10) { all_views(*this, a, r, 10); break; }
        switch (a[1]) {
          case 0: walk(v.begin(), v.end(), r); break;
          case 1: walk(cv.begin(), cv.end(), r); break;
          case 2: walk(v.cbegin(), v.cend(), r); break;
          case 3: for (std::size_t i = 0; i < v.size(); ++i) r.push_back(val(v.data()[i])); break;
          case 4: for (std::size_t i = 0; i < cv.size(); ++i) r.push_back(val(cv.data()[i])); break;
          case 5: walk(v.rbegin(), v.rend(), r); break;
          case 6: walk(cv.rbegin(), cv.rend(), r); break;
          case 7: for (std::size_t i = 0; i < v.size(); ++i) r.push_back(val(v.at(i))); break;
          case 8: for (std::size_t i = 0; i < cv.size(); ++i) r.push_back(val(cv[i])); break;
          default: for (const T& x : v) r.push_back(val(x));
        }
        break;
      case O_copy: if constexpr (copies<T>) put(a[0], new V(*o[a[1]])); break;
      case O_move_new: put(a[0], new V(std::move(*o[a[1]]))); break;
      case O_assign: if constexpr (copies<T>) v = *o[a[1]]; break;
      case O_massign: v = std::move(*o[a[1]]); break;
      case O_swap: v.swap(*o[a[1]]); break;
      case O_eq: {
        r.push_back(cv == *o[a[1]]);
        V twin;     // equal elements made anew
        for (int i = 0; i < int(cv.size()); ++i) twin.push_back(T(val(cv[std::size_t(i)])));
        if (!(twin == cv && cv == twin)) r.push_back(-99);
        break;
      }
    }
  }
  constexpr void at_throws(int op, const IV& a, IV& r) {
    if (std::is_constant_evaluated()) return;
    at_throws_rt(op, a, r);
  }
  void at_throws_rt(int op, const IV& a, IV& r) {
    V& v = *o[a[0]];
    const V& cv = v;
    try {
      int x = 0;
      if (op == O_at) x = val(v.at(std::size_t(a[1])));
      if (op == O_cat) x = val(cv.at(std::size_t(a[1])));
      if (op == O_set_at) v.at(std::size_t(a[1])) = T(a[2]);
      r.push_back(1); r.push_back(x);
    } catch (const std::out_of_range&) { r.push_back(0); }
    catch (...) { r.push_back(-1); }
  }

  void at_far(const IV& a, IV& r) {
    V& v = *o[a[0]];
    const V& cv = v;
    const std::size_t one = 1, far[] = {one << 31, one << 32, (one << 32) * 3, one << 62, one << 63, std::size_t(0) - 8};
    const std::size_t i = std::size_t(a[1]) + far[a[2]];
    for (int w = 0; w < 3; ++w)
      try {
        if (w == 0) (void)v.at(i); else if (w == 1) (void)cv.at(i); else v.at(i) = T(1);
        r.push_back(1);
      } catch (const std::out_of_range&) { r.push_back(0); }
      catch (...) { r.push_back(-1); }
  }

  static constexpr bool needs_copy(int op) { return op == O_make_il || op == O_push || op == O_push_own || op == O_erase || op == O_copy || op == O_assign; }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    do any(g, op, a); while (!copies<T> && needs_copy(op));
    return true;
  }
  constexpr bool any(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), n = len(s), M = pf.maxlen;
    a = {s};
    int k = g.below(100);
    if (k < 50) {
      if (want_grow(g)) {
        if (n >= M) { op = O_erase; int i = g.in(0, n); a.push_back(i); a.push_back(g.in(i, n)); return true; }
        int j = g.below(3);
        if (j == 2 && n) { op = O_push_own; a.push_back(g.below(n)); }
        else { op = j ? O_push_mv : O_push; a.push_back(rv(g)); }
      } else if (n) op = O_pop;
      else { op = O_resize; a.push_back(g.in(0, M)); }
    } else if (k < 55) { op = O_resize; a.push_back(g.in(0, M)); }
    else if (k < 58) { op = O_reserve; a.push_back(g.in(0, 2 * M)); }
    else if (k < 60) op = g.chance(1, 2) ? O_clear : O_make;
    else if (k < 66) { op = O_erase; int i = g.in(0, n); a.push_back(i); a.push_back(g.in(i, n)); }
    else if (k < 72 && n) { op = g.chance(1, 2) ? O_set : O_set_it; a.push_back(g.below(n)); a.push_back(rv(g)); }
    else if (k < 74 && n) { op = O_set_end; a.push_back(g.below(2)); a.push_back(rv(g)); }
    else if (k < 78) {
      if (!pf.ct && g.chance(1, 8)) { op = O_at_far; a.push_back(g.below(8)); a.push_back(g.below(6)); return true; }
      int w = g.below(3);
      op = w == 0 ? O_at : w == 1 ? O_cat : O_set_at;
      int lim = pf.ct ? n - 1 : n + 1;
      if (lim < 0) { op = O_clear; return true; }
      a.push_back(g.in(0, lim));
      if (w == 2) a.push_back(rv(g));
    }
    else if (k < 80 && n) op = O_ends;
    else if (k < 84) { op = O_view; a.push_back(pf.ct || g.chance(1, 8) ? 10 : g.below(10)); }
    else if (k < 85) { op = O_make_n; a.push_back(g.in(0, M)); }
    else if (k < 87) { op = O_make_il; for (int i = g.below(6); i > 0; --i) a.push_back(rv(g)); }
    else if (k < 89 && s != t) { op = O_copy; a.push_back(t); }
    else if (k < 91 && s != t) { op = O_move_new; a.push_back(t); }
    else if (k < 94) { op = O_assign; a.push_back(t); }
    else if (k < 96 && s != t) { op = O_massign; a.push_back(t); }
    else if (k < 98 && (s != t || g.chance(1, 4))) { op = O_swap; a.push_back(t); }
    else { op = O_eq; a.push_back(t); }
    return true;
  }
};
