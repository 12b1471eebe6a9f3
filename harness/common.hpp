// Common part of every conformance driver.
//
// A driver defines one or more SUTs ("system under test" adapters).  A SUT
//   * names its operations exactly like the operations of the TLA+ module it
//     is bound to (the names are the interface between the two sides),
//   * apply(op,args,ret)  performs one operation on the real cest objects and
//     appends what the call returned to ret (it may append to args what the
//     call was free to choose, e.g. a new capacity),
//   * observe(obs)        appends the projected abstract state, read through
//     the public interface only,
//   * gen(rng,op,args)    picks a random operation whose precondition holds.
// All of it works on plain ints, so that the same adapter can also be
// evaluated in a constant expression (see ct_main.hpp).
//
// Modes:  graph FILE        replay the state graph TLC dumped from the spec
//         trace OUT         random histories, logged as ndjson for TLC
//         replay OUT OPS    one given history, logged as ndjson for TLC
#pragma once
#include <string>
#include <cstdint>
#include <cstddef>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <vector>

#ifndef SUT_ALLOC          // the allocator of the containers under test
#define SUT_ALLOC std::allocator
#endif
#ifdef DRIVER_ALLOC        // the allocator of the driver itself
template <class T> using DV = std::vector<T, DRIVER_ALLOC<T>>;
#else
template <class T> using DV = std::vector<T>;
#endif
using IV = DV<int>;

struct Rng {
  std::uint64_t s;
  constexpr std::uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  constexpr int below(int n) { return n <= 0 ? 0 : int(next() % std::uint64_t(n)); }
  constexpr int in(int lo, int hi) { return lo + below(hi - lo + 1); }
  constexpr bool chance(int num, int den) { return below(den) < num; }
};

constexpr bool str_eq(const char* a, const char* b) {
  while (*a && *a == *b) { ++a; ++b; }
  return *a == *b;
}

// A cap on every traversal a SUT makes: a broken iterator must not hang or
// exhaust memory; the observation is cut off and so differs from the spec's.
constexpr int WALK_CAP = 20000;

// What the driver tells the SUT about the kind of run (see profile()).
struct Prof {
  int maxlen = 8;     // size the history keeps the objects below
  int vals = 5;       // number of distinct values
  int grow = 1;       // 0..2: shrink-heavy, balanced, grow-heavy
  bool ct = false;    // the history is also evaluated in a constant expression
  bool lng = false;   // a long history: the objects grow into the hundreds, then shrink
};

#define SUT_ENUM(n) O_##n,
#define SUT_NAME(n) #n,
#define SUT_OPS(LIST)                                        \
  enum Op { LIST(SUT_ENUM) NOPS };                           \
  static constexpr const char* names[] = { LIST(SUT_NAME) };

// ---- element types -----------------------------------------------------------
// E owns heap storage for its value: a lost, doubled or misplaced construction
// or destruction becomes a memory error or a wrong value at once, at run time
// (AddressSanitizer) and in constant expressions (the compiler).
struct E {
  int* p;
  constexpr E() : p(new int(0)) {}
  constexpr E(int v) : p(new int(v)) {}
  constexpr E(const E& o) : p(o.p ? new int(*o.p) : nullptr) {}
  constexpr E(E&& o) noexcept : p(o.p) { o.p = nullptr; }
  constexpr E& operator=(const E& o) {
    if (this != &o) { int* q = o.p ? new int(*o.p) : nullptr; delete p; p = q; }
    return *this;
  }
  constexpr E& operator=(E&& o) noexcept {
    if (this != &o) { delete p; p = o.p; o.p = nullptr; }
    return *this;
  }
  constexpr ~E() { delete p; }
  constexpr int v() const { return *p; }   // reading a moved-from element fails
  friend constexpr bool operator==(const E& a, const E& b) { return a.v() == b.v(); }
  friend constexpr bool operator!=(const E& a, const E& b) { return a.v() != b.v(); }
  friend constexpr bool operator<(const E& a, const E& b) { return a.v() < b.v(); }
};
// character traits of the client's own: the characters have numbers of their
// own, and the end of the file is one that would otherwise be a character
struct OddTraits : std::char_traits<char> {
  using int_type = long;
  static constexpr int_type eof() { return 77; }
  static constexpr int_type to_int_type(char c) { return 1000 + static_cast<unsigned char>(c); }
  static constexpr char to_char_type(int_type i) { return char(i - 1000); }
  static constexpr bool eq_int_type(int_type a, int_type b) { return a == b; }
  static constexpr int_type not_eof(int_type a) { return a == eof() ? 0 : a; }
};
// M can only be moved.
struct M {
  int* p;
  constexpr M() : p(new int(0)) {}
  constexpr M(int v) : p(new int(v)) {}
  constexpr M(M&& o) noexcept : p(o.p) { o.p = nullptr; }
  constexpr M& operator=(M&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  constexpr ~M() { delete p; }
  friend constexpr bool operator==(const M& a, const M& b) { return *a.p == *b.p; }
};
constexpr int val(const M& x) { return *x.p; }
// W can be copied bit by bit, but is wide and over-aligned, and its equality and
// order are not those of its bits: equal values differ in what they ignore.
struct alignas(32) W {
  char pad[64];
  int ignored, x;
  char tail;
  static inline int serial = 0;
  constexpr W(int v = 0) : pad{}, ignored(std::is_constant_evaluated() ? 0 : ++serial), x(v), tail(char(v)) {
    for (int i = 0; i < 64; ++i) pad[i] = char(v + i);
  }
  constexpr int v() const {
    for (int i = 0; i < 64; ++i) if (pad[i] != char(x + i)) return -77;
    if (!std::is_constant_evaluated() && std::uintptr_t(this) % 32) return -78;
    return tail == char(x) ? x : -79;
  }
  friend constexpr bool operator==(const W& a, const W& b) { return a.v() == b.v(); }
  friend constexpr bool operator!=(const W& a, const W& b) { return a.v() != b.v(); }
  friend constexpr bool operator<(const W& a, const W& b) { return a.v() < b.v(); }
};
constexpr int val(const W& x) { return x.v(); }
template <class T> inline constexpr bool copies = std::is_copy_constructible_v<T>;
constexpr int val(int x) { return x; }
constexpr int val(const E& x) { return x.v(); }

// what a container tells about itself next to its elements
template <class C> constexpr bool meta(const C& c, int n) {
  bool ok = true;
  if constexpr (requires { c.max_size(); }) ok = ok && (n < 0 || c.max_size() >= decltype(c.max_size())(n));
  if constexpr (requires { c.get_allocator(); }) ok = ok && c.get_allocator() == typename C::allocator_type(c.get_allocator());
  return ok;
}
// all the views of a container in turn
template <class S> constexpr void all_views(S& s, IV& a, IV& r, int ways) {
  for (int k = 0; k < ways; ++k) {
    IV b = a, q;
    b[1] = k;
    s.apply(S::O_view, b, q);
    for (int x : q) r.push_back(x);
  }
}

// walks that look at everything an increment or decrement gives back
template <class I, class F> constexpr void walk_up(I it, I e, F f) {
  for (int n = 0; !(it == e) && n < WALK_CAP; ++n) {
    const I was = it;
    if (n & 1) { f(*it.operator->(), it == was && !(it != was)); I now = ++it; if (!(now == it) || now == was) f(*was, false); }
    else { I x = it++; f(*x, x == was && x != it); }
  }
}
template <class I, class F> constexpr void walk_down(I b, I it, F f) {
  for (int n = 0; !(it == b) && n < WALK_CAP; ++n) {
    const I was = it;
    if (n & 1) { I now = --it; f(*it.operator->(), now == it && it != was); }
    else { I x = it--; f(*it, x == was && x != it); }
  }
}

// a new object of slot s; where allocators can be told apart, those of the
// slots 1, 2, ... get one of their own
template <class V, class... X> constexpr V* made(int s, X&&... x) {
  using A = typename V::allocator_type;
  if constexpr (std::is_constructible_v<A, int>) if (s > 0) return new V(std::forward<X>(x)..., A(s));
  return new V(std::forward<X>(x)...);
}

struct SutBase {
  Prof pf;
  constexpr void profile(Rng& rng, int run) {
    if (pf.ct) { pf.maxlen = 3 + rng.below(8); pf.grow = 2; }
    else {
      const int sizes[] = {3, 6, 10, 20, 40, 9, 70, 5};
      pf.maxlen = sizes[run % 8];
      pf.grow = rng.below(3);
    }
    pf.vals = rng.chance(1, 3) ? 2 : 50;
  }
  constexpr void profile_long(int len) { pf.lng = true; pf.maxlen = len / 3; pf.vals = len / 2; pf.grow = 2; bias = 2; }
  constexpr int rv(Rng& rng) const { return rng.in(1, pf.vals); }
  // phases of growth and shrinkage: bias flips now and then
  int bias = 1;
  constexpr bool want_grow(Rng& rng) {
    if (!pf.lng && rng.chance(1, 24)) bias = rng.below(3);
    return rng.chance(1 + 2 * bias + pf.grow, 8);
  }
};
