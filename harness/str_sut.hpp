#pragma once
#include "common.hpp"
#include <cest/string.hpp>
#include <iterator>

// a single-pass iterator over given codes
template <class C> struct InIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = C;
  using difference_type = std::ptrdiff_t;
  using pointer = const C*;
  using reference = C;
  const int* p = nullptr;
  constexpr C operator*() const { return C(*p); }
  constexpr InIt& operator++() { ++p; return *this; }
  constexpr InIt operator++(int) { auto t = *this; ++p; return t; }
  friend constexpr bool operator==(InIt a, InIt b) { return a.p == b.p; }
  friend constexpr bool operator!=(InIt a, InIt b) { return a.p != b.p; }
};

// traits of a client's own: characters that differ in case only are the same
template <class C> struct CiTraits : std::char_traits<C> {
  static constexpr C fold(C c) { return c >= C(97) && c <= C(122) ? C(c - 32) : c; }
  static constexpr bool eq(C x, C y) noexcept { return fold(x) == fold(y); }
  static constexpr bool lt(C x, C y) noexcept { return std::char_traits<C>::lt(fold(x), fold(y)); }
  static constexpr int compare(const C* x, const C* y, std::size_t n) {
    for (; n; --n, ++x, ++y) if (!eq(*x, *y)) return lt(*x, *y) ? -1 : 1;
    return 0;
  }
  static constexpr const C* find(const C* x, std::size_t n, const C& y) {
    for (; n; --n, ++x) if (eq(*x, y)) return x;
    return nullptr;
  }
};
template <class C, int K, class Tr = std::char_traits<C>> struct StrSut : SutBase {
#define L(X) X(make) X(make_lit) X(make_cnt) X(make_it) X(make_sub) X(copy) X(assign) X(assign_lit) X(assign_own) X(append) X(plus_eq) \
  X(append_cnt) X(append_own) X(plus_ch) X(push) X(push_own) X(pop) X(clear) X(reserve) X(set) X(set_it) X(set_end) X(ends) X(view)    \
  X(find_ch) X(find_str) X(find_cnt) X(find_lit) X(find0) X(find_own) X(cmp) X(cmp_own) X(cmp_lit) X(lit_cmp) X(take) X(mtake)
  SUT_OPS(L)
#undef L
  using S = cest::basic_string<C, Tr, SUT_ALLOC<C>>;
  S* o[K];
  constexpr StrSut() { int s = 0; for (auto& p : o) p = made<S>(s++); }
  StrSut(const StrSut&) = delete;
  constexpr ~StrSut() { for (auto& p : o) delete p; }
  constexpr int len(int s) const { return int(o[s]->size()); }
  constexpr void put(int s, S* n) { delete o[s]; o[s] = n; }
  static constexpr int code(C c) { if constexpr (sizeof(C) == 1) return int(static_cast<unsigned char>(c)); else return int(c); }
  static constexpr int pos(typename S::size_type p) { return p == S::npos ? -1 : int(p); }
  static constexpr int sign(int x) { return (x > 0) - (x < 0); }
  // the codes from a[k] on as a heap array of exactly that size (plus a
  // terminator for C strings), so that reading past it is an error
  struct Buf {
    C* p; std::size_t n;
    constexpr Buf(const IV& a, std::size_t k, bool z) : p(new C[a.size() - k + (z ? 1 : 0)]), n(a.size() - k) {
      for (std::size_t i = 0; i < n; ++i) p[i] = C(a[k + i]);
      if (z) p[n] = C();
    }
    Buf(const Buf&) = delete;
    constexpr ~Buf() { delete[] p; }
  };
  constexpr void observe(IV& obs) const {
    for (auto p : o) {
      const S& s = *p;
      int n = int(s.size());
      obs.push_back(s.empty() == (n == 0) && meta(s, n) && int(s.length()) == n ? n : -1);
      for (int i = 0; i < n && i < WALK_CAP; ++i) obs.push_back(code((*p)[std::size_t(i)]));
      obs.push_back(s.capacity() >= s.size() && s.c_str()[n] == C() && (*p)[std::size_t(n)] == C() && s.data() == s.c_str() && p->data() == s.data()
                    && p->begin() == p->data() && p->end() - p->begin() == n && s.end() - s.begin() == n && &(*p)[0] == s.data());
    }
  }
  template <class I> static constexpr void walk(I b, I e, IV& r) { for (int n = 0; b != e && n < WALK_CAP; ++b, ++n) r.push_back(code(*b)); }
  constexpr void apply(int op, IV& a, IV& r) {
    S& s = *o[a[0]];
    const S& cs = s;
    auto sz = [](int x) { return std::size_t(x); };
    switch (op) {
      case O_make: put(a[0], made<S>(a[0])); break;
      case O_make_lit: { Buf b(a, 1, true); put(a[0], made<S>(a[0], b.p)); break; }
      case O_make_cnt: { Buf b(a, 1, false); put(a[0], made<S>(a[0], b.p, b.n)); break; }
      case O_make_it: { const int* d = a.data(); put(a[0], made<S>(a[0], InIt<C>{d + 1}, InIt<C>{d + a.size()})); break; }
      case O_make_sub: { const S& t = *o[a[1]]; put(a[0], made<S>(a[0], t.data() + a[2], sz(a[3]))); break; }
      case O_copy: put(a[0], new S(*o[a[1]])); break;
      case O_assign: if (&(s = *o[a[1]]) != &s) r.push_back(-1); break;
      case O_assign_lit: { Buf b(a, 1, true); if (&(s = b.p) != &s) r.push_back(-1); break; }
      case O_take: put(a[0], new S(std::move(*o[a[1]]))); o[a[1]]->clear(); break;
      case O_mtake: s = std::move(*o[a[1]]); o[a[1]]->clear(); break;
      case O_assign_own: s = cs.c_str() + a[1]; break;
      case O_append: if (&s.append(*o[a[1]]) != &s) r.push_back(-1); break;
      case O_plus_eq: if (&(s += *o[a[1]]) != &s) r.push_back(-1); break;
      case O_append_cnt: { Buf b(a, 1, false); if (&s.append(b.p, b.n) != &s) r.push_back(-1); break; }
      case O_append_own: s.append(cs.data() + a[1], sz(a[2])); break;
      case O_plus_ch: if (&(s += C(a[1])) != &s) r.push_back(-1); break;
      case O_push: s.push_back(C(a[1])); break;
      case O_push_own: s.push_back(cs[sz(a[1])]); break;
      case O_pop: s.pop_back(); break;
      case O_clear: s.clear(); break;
      case O_reserve: s.reserve(sz(a[1])); r.push_back(int(s.capacity()) >= a[1]); break;
      case O_set: s[sz(a[1])] = C(a[2]); break;
      case O_set_it: *(s.begin() + a[1]) = C(a[2]); break;
      case O_set_end: (a[1] ? s.back() : s.front()) = C(a[2]); break;
      case O_ends: r.push_back(code(s.front())); r.push_back(code(s.back())); r.push_back(code(cs.front())); r.push_back(code(cs.back())); break;
      case O_view:
        if (a[1] == 9) { all_views(*this, a, r, 9); break; }
        switch (a[1]) {
          case 0: walk(s.begin(), s.end(), r); break;
          case 1: walk(cs.begin(), cs.end(), r); break;
          case 2: walk(s.cbegin(), s.cend(), r); break;
          case 3: for (std::size_t i = 0; i < cs.size(); ++i) r.push_back(code(cs[i])); break;
          case 4: for (std::size_t i = 0; i < cs.size(); ++i) r.push_back(code(cs.c_str()[i])); break;
          case 5: for (std::size_t i = 0; i < cs.size(); ++i) r.push_back(code(s.data()[i])); break;
          case 6: walk(typename S::reverse_iterator(s.end()), typename S::reverse_iterator(s.begin()), r); break;
          case 7: for (C x : s) r.push_back(code(x)); break;
          default: walk(typename S::const_reverse_iterator(cs.end()), typename S::const_reverse_iterator(cs.begin()), r); break;
        }
        break;
      case O_find_ch: r.push_back(pos(cs.find(C(a[1]), sz(a[2])))); break;
      case O_find_str: r.push_back(pos(cs.find(*o[a[1]], sz(a[2])))); break;
      case O_find_cnt: { Buf b(a, 2, false); r.push_back(pos(cs.find(b.p, sz(a[1]), b.n))); break; }
      case O_find_lit: { Buf b(a, 2, true); r.push_back(pos(cs.find(b.p, sz(a[1])))); break; }
      case O_find0: { IV x{a[2]}; Buf b(x, 0, true); r.push_back(pos(cs.find(C(a[2])))); r.push_back(pos(cs.find(*o[a[1]]))); r.push_back(pos(cs.find(b.p))); break; }
      case O_find_own: r.push_back(pos(cs.find(cs.data() + a[2], sz(a[1]), sz(a[3])))); break;
      case O_cmp_own: { const C* t = cs.c_str() + a[1]; r.push_back(sign(cs.compare(t))); r.push_back(cs == t); r.push_back(cs != t); r.push_back(cs < t); break; }
      case O_cmp: { const S& t = *o[a[1]]; r.push_back(sign(cs.compare(t))); r.push_back(cs == t); r.push_back(cs != t); r.push_back(cs < t); break; }
      case O_cmp_lit: { Buf b(a, 1, true); const C* t = b.p; r.push_back(sign(cs.compare(t))); r.push_back(cs == t); r.push_back(cs != t); r.push_back(cs < t); break; }
      case O_lit_cmp: { Buf b(a, 1, true); const C* t = b.p; r.push_back(t == cs); r.push_back(t != cs); r.push_back(t < cs); break; }
    }
  }
  int alpha = 0;     // 0: few codes, 1: all codes
  bool search = false, wides = false;
  constexpr void profile(Rng& g, int run) { SutBase::profile(g, run); alpha = g.below(4); wides = g.chance(1, 2); }
  constexpr int ch(Rng& g) const {
    const int few[] = {97, 98, 0, 255, 128, 127};
    const int ci[] = {97, 65, 0, 98, 66, 91}, wide[] = {97, 0x161, 0x160, 0x261, 0, 0xffff};
    if (alpha < 3) return (std::is_same_v<Tr, CiTraits<C>> ? ci : sizeof(C) > 1 && wides ? wide : few)[g.below(alpha == 0 ? 2 : alpha == 1 ? 3 : 6)];
    if (sizeof(C) > 1 && wides) return g.below(sizeof(C) == 2 ? 0x10000 : 0x110000);
    return g.below(256);
  }
  constexpr void buf(Rng& g, IV& a, int n) const { for (int i = g.in(0, n); i > 0; --i) a.push_back(ch(g)); }
  // a piece of string s, perhaps spoiled at one place
  constexpr void piece(Rng& g, IV& a, int s) const {
    int n = len(s), i = g.in(0, n), k = g.in(0, g.chance(1, 2) ? n - i : (n - i < 4 ? n - i : 4)), spoil = g.chance(1, 3) && k ? g.below(k) : -1;
    for (int j = 0; j < k; ++j) a.push_back(j == spoil ? ch(g) : code((*o[s])[std::size_t(i + j)]));
    if (g.chance(1, 4)) a.push_back(ch(g));
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), n = len(s), M = pf.maxlen;
    a = {s};
    int k = g.below(search ? 40 : 100);
    if (search && k > 4) k += 60;
    if (k < 30) {
      if (n == 0 || (n < M && want_grow(g))) switch (g.below(8)) {
        case 0: op = O_plus_ch; a.push_back(ch(g)); break;
        case 1: if (n) { op = O_push_own; a.push_back(g.below(n)); break; } [[fallthrough]];
        case 2: op = O_append_cnt; buf(g, a, 5); break;
        case 3: if (n) { int i = g.in(0, n); op = O_append_own; a.push_back(i); a.push_back(g.in(0, n - i)); break; } [[fallthrough]];
        case 4: if (len(t) < M) { op = g.chance(1, 2) ? O_append : O_plus_eq; a.push_back(t); break; } [[fallthrough]];
        default: op = O_push; a.push_back(ch(g)); break;
      } else op = O_pop;
    }
    else if (k < 33) { op = O_reserve; a.push_back(g.below(3 * M)); }
    else if (k < 38 && n) { op = g.chance(1, 2) ? O_set : O_set_it; a.push_back(g.below(n)); a.push_back(ch(g)); }
    else if (k < 40 && n) { op = O_set_end; a.push_back(g.below(2)); a.push_back(ch(g)); }
    else if (k < 41 && n) op = O_ends;
    else if (k < 46) { op = O_view; a.push_back(pf.ct || g.chance(1, 8) ? 9 : g.below(9)); }
    else if (k < 47) op = g.chance(1, 3) ? O_make : O_clear;
    else if (k < 53) { const int w[] = {O_make_lit, O_make_cnt, O_make_it, O_assign_lit}; op = w[g.below(4)]; buf(g, a, g.chance(1, 2) ? 4 : M); }
    else if (k < 55) { int i = g.in(0, len(t)); op = O_make_sub; a.push_back(t); a.push_back(i); a.push_back(g.in(0, len(t) - i)); }
    else if (k < 58 && s != t) { op = O_copy; a.push_back(t); }
    else if (k < 61) { op = O_assign; a.push_back(t); }
    else if (k < 62 && s != t) { op = g.chance(1, 2) ? O_take : O_mtake; a.push_back(t); }
    else if (k < 64) { op = O_assign_own; a.push_back(g.in(0, n)); }
    else if (k < 70) { op = O_find_ch; a.push_back(ch(g)); a.push_back(g.in(0, n + 2)); }
    else if (k < 74) { op = O_find_str; a.push_back(t); a.push_back(g.in(0, n + 2)); }
    else if (k < 84) { op = g.chance(1, 2) ? O_find_cnt : O_find_lit; a.push_back(g.chance(1, 2) ? 0 : g.in(0, n + 2)); piece(g, a, s); }
    else if (k < 85 && n) { int i = g.in(0, n); op = O_find_own; a.push_back(g.in(0, n + 1)); a.push_back(i); a.push_back(g.in(0, n - i)); }
    else if (k < 86) { op = O_find0; a.push_back(t); a.push_back(ch(g)); }
    else if (k < 87) { op = O_cmp_own; a.push_back(g.in(0, n)); }
    else if (k < 91) { op = O_cmp; a.push_back(t); }
    else { op = g.chance(1, 2) ? O_cmp_lit : O_lit_cmp; if (g.chance(1, 3)) buf(g, a, 4); else { int i = 0; for (; i < n && !g.chance(1, 12); ++i) a.push_back(code((*o[s])[std::size_t(i)])); if (g.chance(1, 3)) buf(g, a, 2); } }
    return true;
  }
};
template <class C, int K, class Tr = std::char_traits<C>> struct StrSearch : StrSut<C, K, Tr> { constexpr StrSearch() { this->search = true; } };
