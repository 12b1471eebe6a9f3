#pragma once
#include "common.hpp"
#include "kmath.hpp"
#include <cest/algorithm.hpp>
#include <cest/numeric.hpp>
#include <cest/iterator.hpp>
#include <cest/vector.hpp>
#include <cest/deque.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/set.hpp>
#include <cest/string.hpp>
#include <functional>
#include <random>

constexpr int val(char c) { return (unsigned char)c; }
constexpr int Fn(int x, int y) { return (3 * x + y) % 97 + 1; }
constexpr int Gn(int x) { return (5 * x) % 97 + 1; }
constexpr int coarse(int x) { return x / 4; }

// ---- the kinds of container -------------------------------------------------
// LVL 1 forward, 2 bidirectional, 3 random access; ADV algorithms may step by n
template <class T> struct KVector { using C = cest::vector<T>; using V = T; static constexpr int LVL = 3; static constexpr bool ADV = true, SET = false, BACK = true; };
template <class T> struct KDeque { using C = cest::deque<T>; using V = T; static constexpr int LVL = 1; static constexpr bool ADV = false, SET = false, BACK = true; };
template <class T> struct KList { using C = cest::list<T>; using V = T; static constexpr int LVL = 2; static constexpr bool ADV = true, SET = false, BACK = true; };
template <class T> struct KFList { using C = cest::forward_list<T>; using V = T; static constexpr int LVL = 1; static constexpr bool ADV = true, SET = false, BACK = false; };
template <class T> struct KSet { using C = cest::set<T>; using V = T; static constexpr int LVL = 1; static constexpr bool ADV = false, SET = true, BACK = false; };
struct KString { using C = cest::string; using V = char; static constexpr int LVL = 3; static constexpr bool ADV = true, SET = false, BACK = true; };

template <class K> struct Kit {
  using C = typename K::C; using V = typename K::V;
  static constexpr void build(C& c, const IV& q) {
    if constexpr (K::SET) for (int x : q) c.insert(V(x));
    else if constexpr (requires { c.push_front(V(1)); c.push_back(V(1)); }) {   // from the middle outwards
      size_t m = q.empty() ? 0 : size_t(q[0] + int(q.size())) % (q.size() + 1);
      for (size_t i = m; i--;) c.push_front(V(q[i]));
      for (size_t i = m; i < q.size(); ++i) c.push_back(V(q[i]));
    }
    else if constexpr (K::BACK) for (int x : q) c.push_back(V(x));
    else for (size_t i = q.size(); i--;) c.push_front(V(q[i]));
  }
  static constexpr void observe(const C& c, IV& o) {
    IV q; int k = 0;
    for (auto it = c.begin(); it != c.end() && k < WALK_CAP; ++it, ++k) q.push_back(val(*it));
    int n = k;
    if constexpr (requires { c.size(); }) if (int(c.size()) != k) n = -1;
    if (c.empty() != (k == 0)) n = -1;
    if constexpr (requires { c.c_str(); }) {
      const char* p = c.c_str();
      if (p[c.size()] != 0) n = -2;
      for (int i = 0; i < k && n >= 0; ++i) if (val(p[i]) != q[size_t(i)]) n = -3;
    }
    if constexpr (requires { c[0]; } && !K::SET) for (int i = 0; i < k && n >= 0; ++i) if (val(c[size_t(i)]) != q[size_t(i)]) n = -4;
    o.push_back(n);
    for (int x : q) o.push_back(x);
  }
  static constexpr auto out(C& c) {
    if constexpr (K::SET) return cest::inserter(c, c.end());
    else return cest::back_inserter(c);
  }
  // forget the elements from position n on
  static constexpr void cut(C& c, int n) {
    if constexpr (K::BACK) while (int(c.size()) > n) c.pop_back();
    else if constexpr (!K::SET) { auto it = c.before_begin(); for (int i = 0; i < n; ++i) ++it; c.erase_after(it, c.end()); }
  }
};
template <class C> constexpr auto at(C& c, int n) { auto it = c.begin(); for (int i = 0; i < n; ++i) ++it; return it; }
template <class C, class I> constexpr int pos(C& c, I x) {
  int n = 0;
  for (I it = c.begin(); !(it == x); ++it) if (it == c.end() || ++n > WALK_CAP) return -7;
  return n;
}

template <class KA, class KB, class KO> struct AlgSut : SutBase {
#define L(X) X(clro) X(seta) X(setb) X(find) X(find_if) X(count) X(quant) X(adjacent) X(minmax) X(fold) X(sorted) X(each) X(parted) X(search_n) X(values) X(plain) \
  X(equal) X(mismatch) X(lexless) X(search) X(find_end) X(find_any) X(perm_of) X(inner) X(includes) X(bounds) X(pplain) \
  X(copy) X(copy_if) X(remove_copy) X(unique_copy) X(replace_copy) X(transform) X(transform2) X(partial_sum) X(inc_scan) X(exc_scan) \
  X(adj_diff) X(reverse_copy) X(rotate_copy) X(merge) X(set_op) X(part_copy) \
  X(copy_n) X(remove_copy_if) X(replace_copy_if) X(move_out) X(move_back) X(t_inc_scan) X(t_exc_scan) X(psort_copy) \
  X(fill) X(replace) X(apply_g) X(iota) X(generate) X(scan) X(reverse) X(rotate) X(remove) X(remove_if) X(unique) X(swap_ranges) X(iter_swap) \
  X(copy_in) X(copy_down) X(copy_up) X(next_perm) X(prev_perm) X(stable_sort) X(sort) X(sort_desc) X(stable_part) X(inplace_merge) \
  X(sort_key) X(partition) X(nth) X(partial_sort) X(make_heap) X(push_heap) X(pop_heap) X(sort_heap) X(is_heap) X(shuffle) X(fill_n) X(generate_n) X(replace_if)
  SUT_OPS(L)
#undef L
  using A = typename KA::C; using Bc = typename KB::C; using O = typename KO::C;
  using TA = typename KA::V; using TB = typename KB::V; using TO = typename KO::V;
  static constexpr int LVL = KA::LVL; static constexpr bool ADV = KA::ADV, SETA = KA::SET, SETO = KO::SET;
  static constexpr int FROM_OUT = O_copy, FROM_MUT = O_fill;
  constexpr AlgSut() {}
  AlgSut(const AlgSut&) = delete;
  A* a = new A(); Bc* b = new Bc(); O* o = new O();
  constexpr ~AlgSut() { delete a; delete b; delete o; }
  constexpr void observe(IV& s) const { Kit<KA>::observe(*a, s); Kit<KB>::observe(*b, s); Kit<KO>::observe(*o, s); }
  constexpr int na() const { int n = 0; for (auto it = a->begin(); !(it == a->end()) && n < WALK_CAP; ++it) ++n; return n; }
  constexpr int nb() const { int n = 0; for (auto it = b->begin(); !(it == b->end()) && n < WALK_CAP; ++it) ++n; return n; }
  constexpr IV seq() const { IV q; int k = 0; for (auto it = a->begin(); !(it == a->end()) && k < WALK_CAP; ++it, ++k) q.push_back(val(*it)); return q; }
  constexpr IV seqb() const { IV q; int k = 0; for (auto it = b->begin(); !(it == b->end()) && k < WALK_CAP; ++it, ++k) q.push_back(val(*it)); return q; }

  // ---- the container is only read
  template <class C, class W> constexpr void read(C& c, W& w, int op, const IV& g, IV& r) {
    using namespace cest;
    if (op == O_bounds) {
      if constexpr (ADV) {
        const TA v = TA(g[0]); auto f = c.begin(), l = c.end();
        r.push_back(pos(c, cest::lower_bound(f, l, v))); r.push_back(pos(c, cest::upper_bound(f, l, v)));
        auto p = cest::equal_range(f, l, v); r.push_back(pos(c, p.first)); r.push_back(pos(c, p.second));
        r.push_back(cest::binary_search(f, l, v));
      }
      return;
    }
    auto f = at(c, g[0]), l = at(c, g[1]);
    int v = g.size() > 2 ? g[2] : 0;
    const TA x = TA(v);
    auto gt = [v](const auto& e) { return val(e) > v; };
    auto lessk = [](const auto& p, const auto& q) { return coarse(val(p)) < coarse(val(q)); };
    auto same = [](const auto& p, const auto& q) { return val(p) == val(q); };
    auto less = [](const auto& p, const auto& q) { return val(p) < val(q); };
    auto P = [&](auto it) { r.push_back(pos(c, it)); };
    switch (op) {
      case O_find: P(cest::find(f, l, x)); break;
      case O_find_if: P(cest::find_if(f, l, gt)); P(cest::find_if_not(f, l, gt)); break;
      case O_count: r.push_back(int(cest::count(f, l, x))); r.push_back(int(cest::count_if(f, l, gt))); break;
      case O_quant: r.push_back(cest::all_of(f, l, gt)); r.push_back(cest::any_of(f, l, gt)); r.push_back(cest::none_of(f, l, gt)); break;
      case O_adjacent: P(cest::adjacent_find(f, l)); break;
      case O_minmax: { P(cest::min_element(f, l, lessk)); P(cest::max_element(f, l, lessk)); 
        if constexpr (std::is_default_constructible_v<decltype(f)>) { auto p = cest::minmax_element(f, l, lessk); P(p.first); P(p.second); }
        else { P(cest::min_element(f, l, lessk)); P(cest::max_element(f, l, [](const auto& p, const auto& q) { return !(coarse(val(q)) < coarse(val(p))); })); }
        break; }
      case O_fold: {
        r.push_back(cest::accumulate(f, l, v, [](int s, const auto& e) { return Fn(s, val(e)); }));
        int sum = cest::accumulate(f, l, 0, [](int s, const auto& e) { return s + val(e); });
        if constexpr (ADV) { if (cest::transform_reduce(f, l, 0, std::plus<>{}, [](const auto& e) { return val(e); }) != sum) sum = -1; }
        r.push_back(sum); break;
      }
      case O_sorted: r.push_back(cest::is_sorted(f, l)); P(cest::is_sorted_until(f, l)); break;
      case O_each: cest::for_each(f, l, [&](const auto& e) { r.push_back(val(e)); }); break;
      case O_parted: if (cest::is_partitioned(f, l, gt)) { r.push_back(1); if constexpr (ADV) P(cest::partition_point(f, l, gt)); else P(cest::find_if_not(f, l, gt)); } else { r.push_back(0); P(l); } break;
      case O_search_n: if constexpr (ADV) P(cest::search_n(f, l, g[3], x)); else P(srch_n(f, l, g[3], v)); break;
      case O_values: {   // the algorithms on values: the first and the last of the range, with the middle one
        if (f == l) break;
        auto k = at(c, g[1] - 1), h = at(c, (g[0] + g[1]) / 2);
        const TA &p = *f, &q = *k;
        auto V = [&](const TA& e) { r.push_back(val(e)); };
        V(cest::min(p, q, lessk)); V(cest::max(p, q, lessk));
        auto mm = cest::minmax(p, q, lessk); V(mm.first); V(mm.second);
        V(cest::min(p, q)); V(cest::max(p, q));
        auto m2 = cest::minmax(p, q); V(m2.first); V(m2.second);
        V(cest::min({*h, p, q}, lessk)); V(cest::max({*h, p, q}, lessk));
        auto m3 = cest::minmax({*h, p, q}, lessk); V(m3.first); V(m3.second);
        break;
      }
      case O_plain: {    // by the elements' own order and sums
        P(cest::min_element(f, l)); P(cest::max_element(f, l));
        if constexpr (std::is_default_constructible_v<decltype(f)>) { auto p = cest::minmax_element(f, l); P(p.first); P(p.second); }
        else { P(cest::min_element(f, l)); P(cest::max_element(f, l, [](const auto& p, const auto& q) { return !(val(q) < val(p)); })); }
        P(cest::is_sorted_until(f, l, lessk)); r.push_back(cest::is_sorted(f, l, lessk));
        if constexpr (std::is_same_v<TA, int>) {
          r.push_back(cest::accumulate(f, l, v));
          if constexpr (ADV) { r.push_back(cest::reduce(f, l, v)); r.push_back(cest::reduce(f, l)); r.push_back(cest::reduce(f, l, v, std::plus<>{})); }
          else for (int i = 0; i < 3; ++i) r.push_back(cest::accumulate(f, l, i == 1 ? 0 : v));
        } else { int sum = 0; for (auto i = f; !(i == l); ++i) sum += val(*i); r.push_back(sum + v); r.push_back(sum + v); r.push_back(sum); r.push_back(sum + v); }
        break;
      }
      case O_pplain:     // by the elements' own equality and order
        if constexpr (std::is_same_v<TA, TB>) {
          r.push_back(cest::equal(f, l, w.begin(), w.end()));
          { auto p = cest::mismatch(f, l, w.begin(), w.end()); P(p.first); r.push_back(pos(w, p.second)); }
          r.push_back(cest::lexicographical_compare(f, l, w.begin(), w.end()));
          P(cest::search(f, l, w.begin(), w.end())); P(cest::find_first_of(f, l, w.begin(), w.end()));
          r.push_back(cest::is_permutation(f, l, w.begin(), w.end()));
        } else {
          r.push_back(cest::equal(f, l, w.begin(), w.end(), same));
          { auto p = cest::mismatch(f, l, w.begin(), w.end(), same); P(p.first); r.push_back(pos(w, p.second)); }
          r.push_back(cest::lexicographical_compare(f, l, w.begin(), w.end(), less));
          P(cest::search(f, l, w.begin(), w.end(), same)); P(cest::find_first_of(f, l, w.begin(), w.end(), same));
          r.push_back(cest::is_permutation(f, l, w.begin(), w.end(), same));
        }
        if (g[2]) {      // w is long enough
          r.push_back(cest::equal(f, l, w.begin(), same));
          auto p = cest::mismatch(f, l, w.begin(), same); P(p.first); r.push_back(pos(w, p.second));
          r.push_back(cest::is_permutation(f, l, w.begin(), same));
        }
        break;
      case O_equal: r.push_back(cest::equal(f, l, w.begin(), w.end(), same)); break;
      case O_mismatch: { auto p = cest::mismatch(f, l, w.begin(), w.end(), same); P(p.first); r.push_back(pos(w, p.second)); break; }
      case O_lexless: r.push_back(cest::lexicographical_compare(f, l, w.begin(), w.end(), less)); r.push_back(cest::lexicographical_compare(w.begin(), w.end(), f, l, less)); break;
      case O_search: P(cest::search(f, l, w.begin(), w.end(), same)); break;
      case O_find_end: if constexpr (ADV && !SETA && !KB::SET) P(cest::find_end(f, l, w.begin(), w.end(), same)); else P(fend(f, l, w, same)); break;
      case O_find_any: P(cest::find_first_of(f, l, w.begin(), w.end(), same)); break;
      case O_perm_of: r.push_back(cest::is_permutation(f, l, w.begin(), w.end(), same)); break;
      case O_inner: r.push_back(cest::inner_product(f, l, w.begin(), 0, std::plus<int>{}, [](const auto& p, const auto& q) { return val(p) * val(q); })); break;
      case O_includes: r.push_back(cest::includes(f, l, w.begin(), w.end(), less)); break;
    }
  }
  // the same by forward steps only, where the library's own needs more than the iterators offer
  template <class I> static constexpr I srch_n(I f, I l, int n, int v) {
    if (n == 0) return f;
    for (;; ++f) { I k = f; int m = 0; while (m < n && !(k == l) && val(*k) == v) { ++k; ++m; } if (m == n) return f; if (k == l && m == 0) return l; if (f == l) return l; }
  }
  template <class I, class W, class P> static constexpr I fend(I f, I l, W& w, P same) {
    I hit = l;
    if (w.begin() == w.end()) return hit;
    for (; !(f == l); ++f) { I k = f; auto j = w.begin(); while (!(j == w.end()) && !(k == l) && same(*k, *j)) { ++k; ++j; } if (j == w.end()) hit = f; }
    return hit;
  }

  // ---- what is read goes to an output iterator
  template <class C, class W> constexpr void output(C& c, W& w, int op, const IV& g, IV& r) {
    delete o; o = new O();
    auto f = at(c, g[0]), l = at(c, g[1]);
    int v = g.size() > 2 ? g[2] : 0;
    const TA x = TA(v);
    auto gt = [v](const auto& e) { return val(e) > v; };
    auto less = [](const auto& p, const auto& q) { return val(p) < val(q); };
    auto go = [](const auto& e) { return TO(Gn(val(e))); };
    auto fo = [](const auto& p, const auto& q) { return TO(Fn(val(p), val(q))); };
    auto fa = [](const auto& p, const auto& q) { return TA(Fn(val(p), val(q))); };
    auto d = Kit<KO>::out(*o);
    // where all three are of one element type the library's own conversions apply
    switch (op) {
      case O_copy: cest::copy(f, l, d); break;
      case O_copy_if: cest::copy_if(f, l, d, gt); break;
      case O_remove_copy: cest::remove_copy(f, l, d, x); break;
      case O_unique_copy: cest::unique_copy(f, l, d); break;
      case O_replace_copy: cest::replace_copy(f, l, d, x, TA(g[3])); break;
      case O_transform: cest::transform(f, l, d, go); break;
      case O_transform2: cest::transform(f, l, w.begin(), d, fo); break;
      case O_partial_sum: cest::partial_sum(f, l, d, fa); break;
      case O_inc_scan: cest::inclusive_scan(f, l, d, fa); break;
      case O_exc_scan: cest::exclusive_scan(f, l, d, x, fa); break;
      case O_adj_diff: cest::adjacent_difference(f, l, d, fa); break;
      case O_reverse_copy: if constexpr (LVL >= 2) cest::reverse_copy(f, l, d); break;
      case O_rotate_copy: cest::rotate_copy(f, at(c, v), l, d); break;
      case O_merge: cest::merge(f, l, w.begin(), w.end(), d, less); break;
      case O_set_op:
        if (v == 0) cest::set_union(f, l, w.begin(), w.end(), d, less);
        else if (v == 1) cest::set_intersection(f, l, w.begin(), w.end(), d, less);
        else if (v == 2) cest::set_difference(f, l, w.begin(), w.end(), d, less);
        else cest::set_symmetric_difference(f, l, w.begin(), w.end(), d, less);
        break;
      case O_part_copy: {
        cest::vector<TA> no;
        auto p = cest::partition_copy(f, l, d, cest::back_inserter(no), gt);
        r.push_back(int(cest::count_if(f, l, gt)));
        cest::copy(no.begin(), no.end(), p.first); break;
      }
      case O_copy_n: if constexpr (ADV) cest::copy_n(f, g[1] - g[0], d); else cest::copy(f, l, d); break;
      case O_remove_copy_if: cest::remove_copy_if(f, l, d, gt); break;
      case O_replace_copy_if: cest::replace_copy_if(f, l, d, gt, TA(g[3])); break;
      case O_move_out: { std::remove_const_t<C> t(c); cest::move(at(t, g[0]), at(t, g[1]), d); break; }
      case O_move_back: if constexpr (LVL >= 2) {
        std::remove_const_t<C> t(c);
        cest::vector<TA> z(std::size_t(g[1] - g[0]));
        auto k = cest::move_backward(at(t, g[0]), at(t, g[1]), z.end());
        r.push_back(int(k - z.begin()));
        cest::copy(z.begin(), z.end(), d);
      } break;
      case O_t_inc_scan: cest::transform_inclusive_scan(f, l, d, fa, [](const auto& e) { return TA(Gn(val(e))); }); break;
      case O_t_exc_scan: cest::transform_exclusive_scan(f, l, d, x, fa, [](const auto& e) { return TA(Gn(val(e))); }); break;
      case O_psort_copy: {
        cest::vector<TA> z((std::size_t(v)));
        auto k = g[3] ? cest::partial_sort_copy(f, l, z.begin(), z.end(), [](const TA& p, const TA& q) { return val(q) < val(p); })
                      : cest::partial_sort_copy(f, l, z.begin(), z.end());
        r.push_back(int(k - z.begin()));
        cest::copy(z.begin(), k, d); break;
      }
    }
  }

  // ---- the container itself is rearranged
  template <class I> static void shuffle(I f, I l, int v) { std::mt19937 gen(unsigned(v) * 7919u + 1u); cest::shuffle(f, l, gen); }
  constexpr void mutate(int op, IV& g, IV& r) {
    A& c = *a;
    if (op == O_copy_in) { r.push_back(pos(c, cest::transform(b->begin(), b->end(), at(c, g[0]), [](const auto& e) { return TA(val(e)); }))); return; }
    auto f = at(c, g[0]), l = at(c, g[1]);
    int v = g.size() > 2 ? g[2] : 0;
    const TA x = TA(v);
    auto gt = [v](const auto& e) { return val(e) > v; };
    auto lessk = [](const auto& p, const auto& q) { return coarse(val(p)) < coarse(val(q)); };
    auto P = [&](auto it) { r.push_back(pos(c, it)); };
    auto more = [](const auto& p, const auto& q) { return val(q) < val(p); };
    bool chose = false;
    switch (op) {
      case O_fill: cest::fill(f, l, x); break;
      case O_replace: cest::replace(f, l, x, TA(g[3])); break;
      case O_apply_g: cest::transform(f, l, f, [](const auto& e) { return TA(Gn(val(e))); }); break;
      case O_iota: if constexpr (std::is_same_v<TA, E>) { int k = v; cest::generate(f, l, [&] { return TA(k++); }); } else cest::iota(f, l, TA(v)); break;
      case O_generate: { int k = v; cest::generate(f, l, [&] { k += 2; return TA(k); }); break; }
      case O_scan: cest::partial_sum(f, l, f, [](const auto& p, const auto& q) { return TA(Fn(val(p), val(q))); }); break;
      case O_remove: { int k = pos(c, cest::remove(f, l, x)); Kit<KA>::cut(c, k); r.push_back(k); break; }
      case O_remove_if: { int k = pos(c, cest::remove_if(f, l, gt)); Kit<KA>::cut(c, k); r.push_back(k); break; }
      case O_unique: { int k = pos(c, cest::unique(f, l)); Kit<KA>::cut(c, k); r.push_back(k); break; }
      case O_swap_ranges: if constexpr (std::is_same_v<TA, TB>) r.push_back(pos(*b, cest::swap_ranges(f, l, b->begin()))); break;
      case O_iter_swap: cest::iter_swap(f, l); break;
      case O_fill_n: if constexpr (ADV) P(cest::fill_n(f, g[1] - g[0], x)); else { cest::fill(f, l, x); P(l); } break;
      case O_generate_n: { int k = v; auto z = [&] { k += 3; return TA(k); }; if constexpr (ADV) P(cest::generate_n(f, g[1] - g[0], z)); else { cest::generate(f, l, z); P(l); } break; }
      case O_replace_if: cest::replace_if(f, l, gt, TA(g[3])); break;
      case O_copy_down: P(cest::copy(f, l, at(c, v))); break;
    }
    if constexpr (LVL >= 2) switch (op) {
      case O_reverse: cest::reverse(f, l); break;
      case O_copy_up: P(cest::copy_backward(f, l, at(c, v))); break;
      case O_next_perm: r.push_back(cest::next_permutation(f, l)); break;
      case O_prev_perm: r.push_back(cest::prev_permutation(f, l)); break;
      case O_stable_part: P(cest::stable_partition(f, l, gt)); break;
      case O_inplace_merge: cest::inplace_merge(f, at(c, v), l, lessk); break;
    }
    if constexpr (ADV) switch (op) {
      case O_rotate: P(cest::rotate(f, at(c, v), l)); break;
      case O_partition: P(cest::partition(f, l, gt)); chose = true; break;
    }
    if constexpr (LVL >= 3) switch (op) {
      case O_stable_sort: cest::stable_sort(f, l, lessk); break;
      case O_sort: cest::sort(f, l); break;
      case O_sort_desc: cest::sort(f, l, more); break;
      case O_sort_key: cest::sort(f, l, lessk); chose = true; break;
      case O_nth: cest::nth_element(f, at(c, v), l); chose = true; break;
      case O_partial_sort: cest::partial_sort(f, at(c, v), l); chose = true; break;
      case O_make_heap: cest::make_heap(f, l); chose = true; break;
      case O_push_heap: cest::push_heap(f, l); chose = true; break;
      case O_pop_heap: cest::pop_heap(f, l); chose = true; break;
      case O_sort_heap: cest::sort_heap(f, l); break;
      case O_shuffle: shuffle(f, l, v); chose = true; break;
      case O_is_heap: r.push_back(cest::is_heap(f, l)); P(cest::is_heap_until(f, l)); break;
    }
    if (chose) for (int e : seq()) g.push_back(e);
  }
  constexpr void apply(int op, IV& g, IV& r) {
    if (op == O_clro) { delete o; o = new O(); }
    else if (op == O_seta) { delete a; a = new A(); Kit<KA>::build(*a, g); }
    else if (op == O_setb) { delete b; b = new Bc(); Kit<KB>::build(*b, g); }
    else if (op < FROM_OUT) {
      // through the const iterators and through the others
      IV r2;
      read(std::as_const(*a), std::as_const(*b), op, g, r);
      read(*a, *b, op, g, r2);
      if (r != r2) { r.push_back(-99); for (int x : r2) r.push_back(x); }
    }
    else if (op < FROM_MUT) output(std::as_const(*a), std::as_const(*b), op, g, r);
    else if constexpr (!SETA) mutate(op, g, r);
  }

  // ---- random histories
  static constexpr bool srt(const IV& q, size_t f, size_t l, bool k) { for (size_t i = f; i + 1 < l; ++i) if (k ? coarse(q[i]) > coarse(q[i + 1]) : q[i] > q[i + 1]) return false; return true; }
  static constexpr bool heap(const IV& q, size_t f, size_t l) { for (size_t i = 1; i < l - f && l > f; ++i) if (q[f + (i - 1) / 2] < q[f + i]) return false; return true; }
  constexpr bool gen(Rng& g, int& op, IV& x) {
    for (int i = 0; i < 200; ++i) if (gen1(g, op, x)) return true;
    return false;
  }
  constexpr bool gen1(Rng& g, int& op, IV& x) {
    int mx = pf.maxlen > 24 ? 24 : pf.maxlen, vs = pf.vals > 20 ? 20 : pf.vals;
    x = {};
    IV q = seq(), w = seqb();
    int n = int(q.size()), m = int(w.size());
    auto fresh = [&](int len) { IV z; for (int i = 0; i < len; ++i) z.push_back(g.in(1, vs)); return z; };
    if (q.empty() || g.chance(1, 9)) { op = O_seta; x = fresh(g.in(0, mx)); if (g.chance(1, 3)) std::sort(x.begin(), x.end()); return true; }
    if (g.chance(1, 9)) {
      op = O_setb; 
      if (g.chance(1, 2)) { int i = g.in(0, n), j = g.in(i, n); x = IV(q.begin() + i, q.begin() + j); for (auto& e : x) if (e > 97) e = 97; }
      else x = fresh(g.in(0, mx));
      if (g.chance(1, 3)) std::sort(x.begin(), x.end());
      return true;
    }
    op = g.in(O_find, NOPS - 1);
    if (SETA && op >= FROM_MUT) op = g.in(O_find, FROM_MUT - 1);
    if (g.chance(1, 3) && !SETA && LVL >= 3) op = g.in(O_stable_sort, NOPS - 1);
    int f = g.chance(1, 3) ? 0 : g.in(0, n), l = g.chance(1, 3) ? n : g.in(f, n);
    if (l < f) std::swap(f, l);
    int v = g.chance(1, 2) ? q[size_t(g.below(n))] : g.in(0, vs);
    x = {f, l};
    if (pf.ct && (op == O_stable_sort || op == O_stable_part || op == O_inplace_merge || op == O_shuffle)) return false;
    int mid = g.in(f, l);
    switch (op) {
      case O_find: case O_find_if: case O_count: case O_quant: case O_fold: case O_parted: case O_plain: x.push_back(v); break;
      case O_adjacent: case O_minmax: case O_sorted: case O_each: case O_values: x.push_back(0); break;
      case O_search_n: x.push_back(v); x.push_back(g.in(0, 3)); break;
      case O_equal: case O_mismatch: case O_lexless: case O_search: case O_find_end: case O_find_any: case O_perm_of: break;
      case O_pplain: x.push_back(l - f <= m); break;
      case O_copy_n: case O_move_out: break;
      case O_move_back: if (LVL < 2) return false; break;
      case O_psort_copy: x.push_back(g.in(0, n + 1)); x.push_back(g.below(2)); break;
      case O_fill_n: case O_generate_n: x.push_back(g.in(1, 20)); break;
      case O_shuffle: if (LVL < 3) return false; x.push_back(g.in(0, 99)); break;
      case O_inner: case O_transform2: if (l - f > m) return false; break;
      case O_includes: case O_merge: if (!srt(q, size_t(f), size_t(l), false) || !srt(w, 0, w.size(), false)) return false; break;
      case O_set_op: if (!srt(q, size_t(f), size_t(l), false) || !srt(w, 0, w.size(), false)) return false; x.push_back(g.below(4)); break;
      case O_bounds: if (!ADV || !srt(q, 0, q.size(), false)) return false; x = {v}; break;
      case O_copy_if: case O_remove_copy: case O_exc_scan: case O_part_copy: case O_remove_copy_if: case O_t_exc_scan: x.push_back(v); break;
      case O_replace_copy: case O_replace: case O_replace_copy_if: case O_replace_if: x.push_back(v); x.push_back(g.in(1, vs)); break;
      case O_reverse_copy: case O_reverse: if (LVL < 2) return false; break;
      case O_rotate_copy: x.push_back(mid); break;
      case O_fill: case O_iota: case O_generate: x.push_back(g.in(1, 20)); break;
      case O_rotate: if (!ADV) return false; x.push_back(mid); break;
      case O_remove: case O_remove_if: x = {f, n, v}; break;
      case O_unique: x = {f, n}; break;
      case O_swap_ranges: if (l - f > m || !std::is_same_v<TA, TB> || KB::SET) return false; break;
      case O_iter_swap: x = {g.below(n), g.below(n)}; break;
      case O_copy_in: if (m > n) return false; x = {g.in(0, n - m)}; break;
      case O_copy_down: x.push_back(g.in(0, f)); break;
      case O_copy_up: if (LVL < 2) return false; x.push_back(g.in(l, n)); break;
      case O_next_perm: case O_prev_perm: if (LVL < 2 || !ADV) return false; break;
      case O_stable_part: if (LVL < 2 || !ADV) return false; x.push_back(v); break;
      case O_inplace_merge: if (LVL < 2 || !ADV || !srt(q, size_t(f), size_t(mid), true) || !srt(q, size_t(mid), size_t(l), true)) return false; x.push_back(mid); break;
      case O_partition: if (!ADV) return false; x.push_back(v); break;
      case O_stable_sort: case O_sort: case O_sort_desc: case O_sort_key: case O_make_heap: case O_is_heap: if (LVL < 3) return false; break;
      case O_nth: case O_partial_sort: if (LVL < 3) return false; x.push_back(mid); break;
      case O_push_heap: if (LVL < 3 || f == l || !heap(q, size_t(f), size_t(l - 1))) return false; break;
      case O_pop_heap: if (LVL < 3 || f == l || !heap(q, size_t(f), size_t(l))) return false; break;
      case O_sort_heap: if (LVL < 3 || !heap(q, size_t(f), size_t(l))) return false; break;
      default: break;
    }
    return true;
  }
};
