// Sequences, sets and maps of any size, bound to spec/Bulk.tla and
// spec/BulkOrd.tla: many elements per call, contents as maximal runs.
#include "runtime_main.hpp"
#include <unordered_map>
#include <unordered_set>
#if PART == 1
#include <cest/vector.hpp>
#elif PART == 2
#include <cest/deque.hpp>
#elif PART == 3
#include <cest/list.hpp>
#elif PART == 4
#include <cest/forward_list.hpp>
#elif PART == 5
#include <cest/queue.hpp>
#elif PART == 6
#include <cest/string.hpp>
#elif PART == 7
#include <cest/set.hpp>
#elif PART == 8
#include <cest/map.hpp>
#elif PART == 9
#include <cest/cstdio.hpp>
#include <cest/sstream.hpp>
#endif
constexpr int BULK_CAP = 1000000;

struct Runs {   // maximal runs of what is put in
  int st; int n = 0; IV r;
  void put(int v) {
    if (!r.empty() && v == r[r.size() - 2] + st * r.back()) ++r.back(); else { r.push_back(v); r.push_back(1); }
    ++n;
  }
  void to(IV& o, int size) const {
    o.push_back(size == n ? n : -1); o.push_back(int(r.size() / 2));
    for (std::size_t i = 0; i < r.size() && i < 2000; ++i) o.push_back(r[i]);
  }
};
// Elements and storage that are counted, and can be made to fail (C14, C15).
namespace tally {
long countdown = 0; int bad = 0; bool on = false;
struct Boom {};
std::unordered_set<const void*>& live() { static std::unordered_set<const void*> s; return s; }
std::unordered_map<const void*, std::size_t>& blocks() { static std::unordered_map<const void*, std::size_t> m; return m; }
inline void point() { if (countdown > 0 && --countdown == 0) throw Boom(); }
inline void born(const void* p) { if (!live().insert(p).second) bad |= 1; }
inline void dies(const void* p) { if (!live().erase(p)) bad |= 2; }
inline void used(const void* p) { if (!live().count(p)) bad |= 4; }
}
template <class T> struct CountAlloc {
  using value_type = T;
  CountAlloc() = default;
  template <class U> CountAlloc(const CountAlloc<U>&) {}
  T* allocate(std::size_t n) { tally::point(); tally::on = true; T* p = std::allocator<T>().allocate(n ? n : 1); tally::blocks()[p] = n; return p; }
  void deallocate(T* p, std::size_t n) {
    auto it = tally::blocks().find(p);
    if (it == tally::blocks().end() || it->second != n) { tally::bad |= 8; return; }
    tally::blocks().erase(it);
    std::allocator<T>().deallocate(p, n ? n : 1);
  }
  friend bool operator==(CountAlloc, CountAlloc) { return true; }
};
template <bool NX> struct Cn {
  int x;
  Cn() : x(0) { tally::point(); tally::born(this); }
  Cn(int v) : x(v) { tally::point(); tally::born(this); }
  Cn(const Cn& o) : x(o.x) { tally::used(&o); tally::point(); tally::born(this); }
  Cn(Cn&& o) noexcept(NX) : x(o.x) { tally::used(&o); if (!NX) tally::point(); o.x = -99; tally::born(this); }
  Cn& operator=(const Cn& o) { tally::used(this); tally::used(&o); tally::point(); x = o.x; return *this; }
  Cn& operator=(Cn&& o) noexcept(NX) { tally::used(this); tally::used(&o); if (!NX) tally::point(); if (this != &o) { x = o.x; o.x = -99; } return *this; }
  ~Cn() { tally::dies(this); x = -77; }
  friend bool operator==(const Cn& a, const Cn& b) { return a.x == b.x; }
  friend bool operator<(const Cn& a, const Cn& b) { return a.x < b.x; }
};
template <bool NX> int val(const Cn<NX>& c) { return c.x; }
template <class T> inline constexpr bool counted = false;
template <bool NX> inline constexpr bool counted<Cn<NX>> = true;
struct Failing {   // a call, made to fail at its k-th point
  Failing(int k) { tally::countdown = k; }
  ~Failing() { tally::countdown = 0; }
};
inline int vi(char c) { return static_cast<unsigned char>(c); }
template <class T> int vi(const T& x) { return val(x); }

struct Once {   // a single-pass iterator
  using iterator_category = std::input_iterator_tag;
  using value_type = char;
  using difference_type = std::ptrdiff_t;
  using pointer = const char*;
  using reference = char;
  const char* p = nullptr;
  char operator*() const { return *p; }
  Once& operator++() { ++p; return *this; }
  Once operator++(int) { auto t = *this; ++p; return t; }
  friend bool operator==(Once a, Once b) { return a.p == b.p; }
  friend bool operator!=(Once a, Once b) { return a.p != b.p; }
};

struct Sizes : SutBase {
  int big = 1 << 14, ways = 0;
  bool copying = false;    // every third call copies a whole object
  bool huge = false;       // most calls are about more than 2^16 elements
  void profile(Rng& g, int run) { copying = run % 4 == 3; if (huge) { pf.maxlen = big; return; } pf.maxlen = 1 << g.in(6, 17); if (pf.maxlen > big) pf.maxlen = big; }
  int some(Rng& g, int room) const {   // a number of any order of magnitude
    if (huge && g.chance(1, 2)) return g.chance(1, 2) && room > 65600 ? 65536 + g.in(-2, 40) : room;
    int top = 1; while ((2 << top) <= room && top < 20) ++top;
    int k = 1 << g.in(0, top), n = g.chance(1, 4) ? k + g.in(-1, 1) : g.in(k / 2, k);
    return n < 0 ? 0 : n > room ? room : n;
  }
};

#if PART < 7
#define HAS(EXPR) requires { EXPR; }
template <class C, class T, int ST, int K, int BIG, bool ACCT = false, bool HUGE_ = false> struct SeqSut : Sizes {
#define L(X) X(back) X(front) X(popb) X(popf) X(clear) X(make) X(reserve) X(set) X(at) X(ins) X(erase) X(copy) X(assign) \
  X(join) X(swap) X(find) X(eq) X(walk) X(il) X(findr) X(cmp) X(cmpz) X(xback) X(xfront) X(xins) X(xcopy) X(xassign) X(gone)
  SUT_OPS(L)
#undef L
  static constexpr bool vec = PART == 1, deq = PART == 2, lst = PART == 3, fl = PART == 4, que = PART == 5, str = PART == 6;
  C* o[K];
  SeqSut() { big = BIG; huge = HUGE_; for (auto& p : o) p = new C(); }
  SeqSut(const SeqSut&) = delete;
  ~SeqSut() { for (auto& p : o) delete p; }
  void put(int s, C* n) { delete o[s]; o[s] = n; }
  int len(int s) const {
    if constexpr (fl) { int n = 0; for (auto i = o[s]->begin(); i != o[s]->end() && n < BULK_CAP; ++i) ++n; return n; }
    else return int(o[s]->size());
  }
  template <class I> static void run(I b, I e, Runs& r) { for (int n = 0; b != e && n < BULK_CAP; ++b, ++n) r.put(vi(*b)); }
  static void content(C& c, int way, IV& out) {
    Runs r{ST};
    const C& cc = c;
    if constexpr (que) {   // there is no looking into it but by emptying a copy
      C d(cc);
      for (int n = 0; !d.empty() && n < BULK_CAP; ++n) {
        r.put(vi(way & 1 ? std::as_const(d).front() : d.front()));
        if (d.size() > 1 && way & 2 && vi(d.back()) != vi(c.back())) r.put(-5);
        d.pop();
      }
    } else {
      int n = 0;
      switch (way) {
        case 0: run(cc.begin(), cc.end(), r); break;
        case 1: run(c.begin(), c.end(), r); break;
        case 2:
          if constexpr (HAS(c[0])) { for (std::size_t i = 0; i < c.size(); ++i) r.put(vi(i & 1 ? c[i] : cc[i])); break; }
          else { run(cc.cbegin(), cc.cend(), r); break; }
        case 3:   // backwards
          if constexpr (fl) run(c.cbegin(), c.cend(), r);
          else if constexpr (HAS(c.rbegin())) { IV b; for (auto i = c.rbegin(); i != c.rend() && n < BULK_CAP; ++i, ++n) b.push_back(vi(*i)); for (std::size_t i = b.size(); i-- > 0;) r.put(b[i]); }
          else { IV b; auto i = c.end(); while (i != c.begin() && n < BULK_CAP) { --i; ++n; b.push_back(vi(*i)); } for (std::size_t k = b.size(); k-- > 0;) r.put(b[k]); }
          break;
      }
    }
    if constexpr (str) if (c.c_str()[c.size()] != 0 || c.data()[c.size()] != 0) r.put(-6);
    if constexpr (fl) r.to(out, r.n);
    else r.to(out, c.empty() == (c.size() == 0) ? int(c.size()) : -1);
    if (!c.empty()) {   // the ends, in the length's place if they are wrong
      if (vi(c.front()) != r.r[0] || vi(cc.front()) != r.r[0]) out[0] = -2;
      if constexpr (!fl) { int l = r.r[r.r.size() - 2] + ST * (r.r.back() - 1); if (vi(c.back()) != l || vi(cc.back()) != l) out[0] = -3; }
    }
  }
  void observe(IV& obs) const { for (auto p : o) { IV x; content(*p, PART == 1 || PART == 2 ? 2 : 0, x); obs.insert(obs.end(), x.begin(), x.end()); } held(obs); }
  static void held(IV& obs) { if constexpr (ACCT) { obs.push_back(int(tally::live().size())); obs.push_back(tally::bad); } }
  template <std::size_t... I> static C* listed(int v, std::index_sequence<I...>) {
    if constexpr (HAS(C({T(1), T(2)}))) return new C({T(v + ST * int(I))...}); else return new C();
  }
  template <std::size_t... N> static C* listed(int v, int n, std::index_sequence<N...>) {
    C* c = nullptr;
    ((int(N) == n ? void(c = listed(v, std::make_index_sequence<N>())) : void()), ...);
    return c;
  }
  template <class F> static int until_fails(int n, int k, F f) {
    Failing x(k); int i = 0;
    try { for (; i < n; ++i) f(i); } catch (const tally::Boom&) {}
    return i;
  }
  auto place(C& c, int i) { auto p = c.begin(); for (; i > 0; --i) ++p; return p; }
  void apply(int op, IV& a, IV& r) {
    C& c = *o[a[0]];
    ++ways;
    switch (op) {
      case O_back:
        if constexpr (str) {
          if (ways % 3 == 0) { DV<char> b; b.assign(std::size_t(a[2]), char(a[1])); c.append(b.data(), b.size()); break; }
          if (ways % 3 == 1) { C x; for (int i = 0; i < a[2]; ++i) x.push_back(char(a[1])); if (ways & 1) c.append(x); else c += x; break; }
          for (int i = 0; i < a[2]; ++i) if (i & 1) c += char(a[1]); else c.push_back(char(a[1]));
        } else
          for (int i = 0; i < a[2]; ++i) {
            T x(a[1] + ST * i);
            if constexpr (que) { if ((ways + i) & 1) c.push(x); else c.push(std::move(x)); }
            else if constexpr (HAS(c.push_back(x))) { if ((ways + i) & 1) c.push_back(x); else c.push_back(std::move(x)); }
          }
        break;
      case O_front:
        if constexpr (HAS(c.push_front(T(1)))) for (int i = a[2]; i-- > 0;) { T x(a[1] + ST * i); if ((ways + i) & 1) c.push_front(x); else c.push_front(std::move(x)); }
        break;
      case O_popb:
        if constexpr (vec) if (ways & 1) { c.resize(c.size() - std::size_t(a[1])); break; }
        if constexpr (HAS(c.pop_back())) for (int i = 0; i < a[1]; ++i) c.pop_back();
        break;
      case O_popf:
        if constexpr (que) for (int i = 0; i < a[1]; ++i) c.pop();
        else if constexpr (HAS(c.pop_front())) for (int i = 0; i < a[1]; ++i) c.pop_front();
        break;
      case O_clear: if constexpr (HAS(c.clear())) c.clear(); break;
      case O_make: put(a[0], new C()); break;
      case O_reserve: if constexpr (HAS(c.reserve(1u))) c.reserve(std::size_t(a[1])); break;
      case O_set:
        if constexpr (str) c[std::size_t(a[1])] = char(a[2]);
        else if constexpr (HAS(c[0])) c[std::size_t(a[1])] = T(a[2]);
        else if constexpr (!que) *place(c, a[1]) = T(a[2]);
        break;
      case O_at:
        if constexpr (HAS(c[0])) r.push_back(vi(ways & 1 ? c[std::size_t(a[1])] : std::as_const(c)[std::size_t(a[1])]));
        else if constexpr (!que) r.push_back(vi(*place(c, a[1])));
        break;
      case O_ins:
        if constexpr (lst) { auto p = place(c, a[1]); for (int i = 0; i < a[3]; ++i) { p = c.insert(p, T(a[2] + ST * i)); ++p; } }
        if constexpr (fl) { auto p = place_before(c, a[1]); for (int i = 0; i < a[3]; ++i) p = c.insert_after(p, T(a[2] + ST * i)); }
        break;
      case O_erase:
        if constexpr (vec) c.erase(c.begin() + a[1], c.begin() + a[2]);
        if constexpr (lst) { auto p = place(c, a[1]); for (int i = a[1]; i < a[2]; ++i) p = c.erase(p); }
        if constexpr (fl) {
          auto p = place_before(c, a[1]);
          if (ways & 1) { auto e = p; for (int i = a[1]; i <= a[2]; ++i) ++e; c.erase_after(p, e); }
          else for (int i = a[1]; i < a[2]; ++i) c.erase_after(p);
        }
        break;
      case O_copy: put(a[0], new C(std::as_const(*o[a[1]]))); break;
      case O_assign: c = std::as_const(*o[a[1]]); break;
      case O_join: if constexpr (str) { if (ways & 1) c.append(*o[a[1]]); else c += *o[a[1]]; } break;
      case O_swap: if constexpr (HAS(c.swap(c))) c.swap(*o[a[1]]); break;
      case O_find: if constexpr (str) { auto f = c.find(char(a[1]), std::size_t(a[2])); r.push_back(f == C::npos ? -1 : int(f)); } break;
      case O_eq: if constexpr (vec || str) r.push_back(c == *o[a[1]]); break;
      case O_walk: content(c, a[1], r); break;
      case O_il:
        if constexpr (vec || deq) put(a[0], listed(a[1], a[2], std::make_index_sequence<41>()));
        if constexpr (str) {   // from characters that are not in a string, exactly as many as there are
          std::size_t n = std::size_t(a[2]);
          DV<char> b; b.assign(n + 1, char(a[1])); b.back() = 0;
          const bool z = a[1] != 0 || n == 0;
          const char* p = b.data();
          switch (ways % 6) {
            case 0: put(a[0], new C(p, n)); break;
            case 1: put(a[0], new C(Once{p}, Once{p + n})); break;
            case 2: c = C(p, n); break;
            case 3: if (z) put(a[0], new C(p)); else c.assign(p, n); break;
            case 4: if (z) c = p; else c.assign(p, n); break;
            case 5: c.assign(p, n); break;
          }
        }
        break;
      case O_findr:
        if constexpr (str) {
          C pat; for (int i = 0; i < a[2]; ++i) pat.push_back(char(a[1]));
          auto f = ways & 1 ? c.find(pat, std::size_t(a[3])) : c.find(pat.c_str(), std::size_t(a[3]), pat.size());
          r.push_back(f == C::npos ? -1 : int(f));
        }
        break;
      case O_cmp:
        if constexpr (str) {
          const C& d = *o[a[1]]; int x = std::as_const(c).compare(d); x = x < 0 ? -1 : x > 0;
          if ((c < d) != (x < 0) || (c == d) != (x == 0) || (c != d) != (x != 0)) x = -5;
          r.push_back(x);
        }
        break;
      case O_cmpz:   // with the characters before the first null
        if constexpr (str) {
          const C& d = *o[a[1]]; const char* z = d.c_str(); int x = std::as_const(c).compare(z); x = x < 0 ? -1 : x > 0;
          if ((c == z) != (x == 0) || (z == c) != (x == 0) || (c != z) != (x != 0) || (z != c) != (x != 0) || (c < z) != (x < 0) || (z < c) != (x > 0)) x = -5;
          r.push_back(x);
        }
        break;
      case O_xback: a.push_back(until_fails(a[2], a[3], [&](int i) {
          if constexpr (counted<T> || str) {
            if constexpr (que) { if ((ways + i) & 1) c.push(T(a[1] + ST * i)); else { const T x(a[1] + ST * i); c.push(x); } }
            else if constexpr (HAS(c.push_back(T(1)))) { const T x = T(a[1] + ST * i); if ((ways + i) & 1) c.push_back(T(a[1] + ST * i)); else c.push_back(x); }
          }
        })); break;
      case O_xfront: a.push_back(until_fails(a[2], a[3], [&](int i) {
          if constexpr (HAS(c.push_front(T(1)))) { const T x(a[1] + ST * (a[2] - 1 - i)); if ((ways + i) & 1) c.push_front(T(x)); else c.push_front(x); }
        })); break;
      case O_xins:
        if constexpr (lst) { auto p = place(c, a[1]); a.push_back(until_fails(a[3], a[4], [&](int i) { const T x(a[2] + ST * i); p = i & 1 ? c.insert(p, x) : c.insert(p, T(x)); ++p; })); }
        if constexpr (fl) { auto p = place_before(c, a[1]); a.push_back(until_fails(a[3], a[4], [&](int i) { const T x(a[2] + ST * i); p = i & 1 ? c.insert_after(p, x) : c.insert_after(p, T(x)); })); }
        break;
      case O_xcopy: r.push_back(1); until_fails(1, a[2], [&](int) { C d(std::as_const(*o[a[1]])); }); break;
      case O_xassign:
        until_fails(1, a[2], [&](int) {
          if constexpr (vec) if (ways % 3 == 0) { c.resize(c.size() + 7); return; }
          if constexpr (vec || str) if (ways % 3 == 1) { c.reserve(2 * c.size() + 40); return; }
          if constexpr (str) if (ways % 3 == 2) { c.append(*o[a[1]]); return; }
          c = std::as_const(*o[a[1]]);
        });
        { int n = 0; if constexpr (!que) for (auto i = c.begin(); i != c.end() && n < BULK_CAP; ++i) ++n;
          bool fine = true;
          if constexpr (!fl && !que) fine = n == int(c.size());
          if constexpr (HAS(c.clear())) c.clear(); else put(a[0], new C());
          r.push_back(fine); }
        break;
      case O_gone:
        for (auto& p : o) { delete p; p = nullptr; }
        if (ACCT) for (int x : {int(tally::live().size()), int(tally::blocks().size()), tally::bad}) r.push_back(x);
        else for (int i = 0; i < 3; ++i) r.push_back(0);
        for (auto& p : o) p = new C();
        break;
    }
  }
  auto place_before(C& c, int i) { if constexpr (fl) { auto p = c.before_begin(); for (; i > 0; --i) ++p; return p; } else return 0; }
  static constexpr bool has(int op) {
    switch (op) {
      case O_front: return deq || lst || fl;
      case O_back: return !fl;
      case O_popb: return vec || deq || lst || str;
      case O_popf: return deq || lst || fl || que;
      case O_clear: return !que;
      case O_reserve: return vec || str;
      case O_set: case O_at: return !que;
      case O_ins: return lst || fl;
      case O_erase: return vec || lst || fl;
      case O_join: case O_find: return str;
      case O_swap: return vec || fl;
      case O_eq: return vec || str;
      case O_findr: case O_cmp: case O_cmpz: return str;
      case O_il: return vec || deq || str;
      case O_xback: return ACCT && !fl;
      case O_xfront: return ACCT && (deq || lst || fl);
      case O_xins: return ACCT && (lst || fl);
      case O_xcopy: case O_xassign: return ACCT;
    }
    return true;
  }
  int hint = 1;   // where a new run may go on
  std::vector<std::pair<int, IV>> next;   // calls that are to follow, the last first
  void profile(Rng& g, int run) {
    Sizes::profile(g, run);
    next.clear();
    // lengths that differ by 2^16, first of all
    if (str && huge && run % 2 == 0) {
      int v = g.in(0, 3) * 85, n = g.chance(1, 2) ? g.in(0, 3) : g.in(0, pf.maxlen - 65536), s = g.below(2);
      next = {{O_cmp, {1 - s, s}}, {O_cmp, {s, 1 - s}}, {O_back, {1 - s, v, 65536}}, {O_assign, {1 - s, s}}, {O_il, {s, v, n}}};
    }
  }
  // two objects that differ in one place, or in length, are compared
  void alike(Rng& g, int s, int t, int n) {
    int last = str ? g.chance(1, 3) ? O_eq : g.in(O_cmp, O_cmpz) : O_eq;
    next.push_back({last, g.chance(1, 2) ? IV{s, t} : IV{t, s}});
    // ... by one, or by what is nothing if only the low bits of it count
    if (str && g.chance(1, 4)) { int k = huge && g.chance(1, 2) ? 65536 : 1 << g.in(0, 16); if (n + k <= pf.maxlen) { next.push_back({O_back, {s, g.in(0, 3) * 85, k}}); return; } }
    if (str && g.chance(2, 5)) { int k = g.chance(1, 3) && n > 32768 ? n > 65536 ? 65536 : 32768 : 1 << g.in(0, 16), m = k * g.in(1, 3); next.push_back({O_popb, {s, m <= n ? m : k <= n ? k : 1}}); return; }
    if (g.chance(1, 5)) next.push_back({O_popb, {s, 1}});
    else if (g.chance(9, 10)) next.push_back({O_set, {s, g.chance(1, 2) ? n - 1 : g.chance(1, 2) ? some(g, n - 1) : g.below(n), str ? g.in(0, 3) * 85 : g.in(1, 1000000)}});
  }
  bool gen(Rng& g, int& op, IV& a) {
    if (!next.empty()) { op = next.back().first; a = next.back().second; next.pop_back(); return true; }
    for (;;) {
      op = g.below(NOPS);
      if (ACCT && g.chance(1, 3)) op = g.in(O_xback, O_xassign);
      else if (copying && g.chance(1, 3)) op = g.chance(1, 2) ? O_copy : O_assign;
      else if (g.chance(1, 2)) op = fl || (has(O_front) && g.chance(1, 2)) ? O_front : O_back;
      if (str && !ACCT && g.chance(1, huge ? 4 : 8)) op = O_il;
      if (!has(op)) continue;
      int s = g.below(K), t = g.below(K), n = len(s), room = pf.maxlen - n;
      a = {s};
      if (has(O_eq) && !ACCT && s != t && len(t) && g.chance(1, str ? huge ? 2 : 4 : 8)) { op = O_assign; a.push_back(t); alike(g, s, t, len(t)); return true; }
      if (huge && deq && n > 300000 && g.chance(1, 2)) { op = O_popf; a.push_back(n - g.in(1, 3000)); return true; }
      auto nv = [&](int cnt) { int v = str ? g.in(0, 3) * 85 : g.chance(1, 2) ? hint : g.in(1, 1000000); hint = v + cnt; return v; };
      switch (op) {
        case O_back: case O_front: { int k = some(g, room); a.push_back(nv(k)); a.push_back(k); return true; }
        case O_popb: case O_popf: a.push_back(g.chance(1, 4) ? n : some(g, n)); return true;
        case O_clear: case O_make: if (g.chance(1, 3)) return true; break;
        case O_reserve: a.push_back(some(g, 2 * pf.maxlen)); return true;
        case O_set: if (n) { a.push_back(g.chance(1, 2) ? some(g, n - 1) : g.below(n)); a.push_back(nv(1)); return true; } break;
        case O_at: if (n) { a.push_back(g.below(n)); return true; } break;
        case O_ins: { a.push_back(g.in(0, n)); int k = some(g, room); a.push_back(nv(k)); a.push_back(k); return true; }
        case O_erase: { int i = g.in(0, n); a.push_back(i); a.push_back(g.chance(1, 4) ? n : i + some(g, n - i)); return true; }
        case O_copy: case O_swap: if (s != t) { a.push_back(t); return true; } break;
        case O_assign: case O_eq: a.push_back(t); return true;
        case O_join: if (len(t) <= room) { a.push_back(t); return true; } break;
        case O_find: a.push_back(g.in(0, 3) * 85); a.push_back(g.chance(1, 3) ? 0 : g.in(0, n + 1)); return true;
        case O_walk: a.push_back(g.below(4)); return true;
        case O_il: { int k = str ? some(g, pf.maxlen) : g.below(41); a.push_back(nv(k)); a.push_back(k); return true; }
        case O_findr: { int k = g.chance(1, 6) ? 0 : g.chance(1, 2) ? g.in(1, 5) : some(g, n + 1); a.push_back(g.in(0, 3) * 85); a.push_back(k); a.push_back(g.chance(1, 3) ? 0 : g.in(0, n + 1)); return true; }
        case O_cmp: case O_cmpz: a.push_back(t); return true;
        // failing early or late: at any order of magnitude
        case O_xback: case O_xfront: { int k = some(g, room); a.push_back(nv(k)); a.push_back(k); a.push_back(1 + some(g, 3 * k + 3)); return true; }
        case O_xins: { a.push_back(g.in(0, n)); int k = some(g, room); a.push_back(nv(k)); a.push_back(k); a.push_back(1 + some(g, 3 * k + 3)); return true; }
        case O_xcopy: case O_xassign: if (s != t) { a.push_back(t); a.push_back(1 + some(g, 2 * len(t) + 3)); return true; } break;
        case O_gone: if (g.chance(1, 3)) return true; break;
      }
    }
  }
};
#elif PART < 9
template <class C, class T, bool MAP, int K, int BIG, bool ACCT = false, bool HUGE_ = false> struct OrdBulk : Sizes {
#define L(X) X(ins) X(find) X(count) X(clear) X(make) X(copy) X(assign) X(walk) X(xins) X(xcopy) X(xassign) X(gone)
  SUT_OPS(L)
#undef L
  C* o[K];
  int keys = 1000;
  OrdBulk() { big = BIG; huge = HUGE_; for (auto& p : o) p = new C(); }
  OrdBulk(const OrdBulk&) = delete;
  ~OrdBulk() { for (auto& p : o) delete p; }
  void put(int s, C* n) { delete o[s]; o[s] = n; }
  template <class X> static int key(const X& x) { if constexpr (MAP) return val(x.first); else return val(x); }
  template <class X> static int tag(const X& x) { if constexpr (MAP) return val(x.second); else return 0; }
  template <class I> static void content(C& c, I b, I e, IV& out) {
    IV r; int n = 0;
    for (; b != e && n < BULK_CAP; ++b, ++n) {
      int k = key(*b), t = tag(*b);
      if (!r.empty() && k == r[r.size() - 3] + r[r.size() - 2] && t == r.back()) ++r[r.size() - 2];
      else { r.push_back(k); r.push_back(1); r.push_back(t); }
    }
    out.push_back(int(c.size()) == n && c.empty() == (n == 0) ? n : -1); out.push_back(int(r.size() / 3));
    for (std::size_t i = 0; i < r.size() && i < 3000; ++i) out.push_back(r[i]);
  }
  void observe(IV& obs) const { for (auto p : o) content(*p, std::as_const(*p).begin(), std::as_const(*p).end(), obs);
    if (ACCT) { obs.push_back(int(tally::live().size())); obs.push_back(tally::bad); }
  }
  void apply(int op, IV& a, IV& r) {
    C& c = *o[a[0]]; const C& cc = c;
    ++ways;
    switch (op) {
      case O_ins: {
        int n = a[2], added = 0; Rng g{std::uint64_t(a[4])};
        IV p; for (int i = 0; i < n; ++i) p.push_back(i);
        switch (a[4] % 5) {
          case 0: break;
          case 1: for (int i = 0; i < n; ++i) p[std::size_t(i)] = n - 1 - i; break;
          case 2: for (int i = 0; i < n; ++i) p[std::size_t(i)] = i & 1 ? n - 1 - i / 2 : i / 2; break;                        // from both ends
          case 3: for (int i = 0; i < n; ++i) p[std::size_t(i)] = i & 1 ? n / 2 + (i + 1) / 2 - (n % 2 ? 0 : 1) : (n - 1) / 2 - i / 2; break; // from the middle
          case 4: for (int i = n; i > 1; --i) std::swap(p[std::size_t(i - 1)], p[std::size_t(g.below(i))]); break;
        }
        if (a[4] % 5 == 3) for (int& x : p) if (x < 0 || x >= n) x = 0;
        bool ok = true;
        for (int x : p) {
          int k = a[1] + x;
          if constexpr (MAP) { auto q = c.insert({T(k), T(a[3])}); if (q.second) ++added; ok = ok && key(*q.first) == k && (!q.second || tag(*q.first) == a[3]); }
          else if (ways % 4 == 3) { auto b = c.size(); auto i = c.insert(c.end(), T(k)); added += int(c.size() - b); ok = ok && key(*i) == k; }
          else { auto q = c.insert(T(k)); if (q.second) ++added; ok = ok && key(*q.first) == k; }
        }
        r.push_back(ok ? added : -1);
        break;
      }
      case O_find: {
        auto hit = [&](auto it, auto end) { if (it == end) { r.push_back(0); r.push_back(0); } else { r.push_back(key(*it) == a[1] ? 1 : -1); r.push_back(tag(*it)); } };
        if (ways & 1) hit(c.find(T(a[1])), c.end()); else hit(cc.find(T(a[1])), cc.end());
        break;
      }
      case O_count: { int n = 0; for (int i = 0; i < a[2]; ++i) { T k(a[1] + i); if (i & 1) n += c.find(k) != c.end(); else n += cc.find(k) != cc.end(); } r.push_back(n); break; }
      case O_clear: c.clear(); break;
      case O_make: put(a[0], new C()); break;
      case O_copy: put(a[0], new C(std::as_const(*o[a[1]]))); break;
      case O_assign: c = std::as_const(*o[a[1]]); break;
      case O_walk: if (a[1]) content(c, c.cbegin(), c.cend(), r);
                   else { typename C::const_iterator b = c.begin(), e = c.end(); content(c, b, e, r); } break;
      case O_xins: {
        int i = 0;
        { Failing x(a[4]);
          try {
            for (; i < a[2]; ++i)
              if constexpr (MAP) { if (i & 1) { const std::pair<const T, T> e{T(a[1] + i), T(a[3])}; c.insert(e); } else c.insert({T(a[1] + i), T(a[3])}); }
              else if (i & 1) { const T k(a[1] + i); c.insert(k); } else c.insert(T(a[1] + i));
          } catch (const tally::Boom&) {} }
        a.push_back(i);
        break;
      }
      case O_xcopy: r.push_back(1); try { Failing x(a[2]); C d(std::as_const(*o[a[1]])); } catch (const tally::Boom&) {} break;
      case O_xassign: {
        try { Failing x(a[2]); c = std::as_const(*o[a[1]]); } catch (const tally::Boom&) {}
        int n = 0; for (auto i = c.begin(); i != c.end() && n < BULK_CAP; ++i) ++n;
        r.push_back(n == int(c.size()));
        c.clear();
        break;
      }
      case O_gone:
        for (auto& p : o) { delete p; p = nullptr; }
        if (ACCT) for (int x : {int(tally::live().size()), int(tally::blocks().size()), tally::bad}) r.push_back(x);
        else for (int i = 0; i < 3; ++i) r.push_back(0);
        for (auto& p : o) p = new C();
        break;
    }
  }
  bool gen(Rng& g, int& op, IV& a) {
    for (;;) {
      op = ACCT && g.chance(1, 3) ? g.in(O_xins, O_xassign) : copying && g.chance(1, 3) ? (g.chance(1, 2) ? O_copy : O_assign) : g.chance(1, 2) ? O_ins : g.below(NOPS);
      int s = g.below(K), t = g.below(K), M = pf.maxlen;
      a = {s};
      switch (op) {
        case O_ins: { int n = some(g, M - int(o[s]->size())); if (n < 1) break; a.push_back(g.in(0, 2 * M)); a.push_back(n); a.push_back(MAP ? g.in(0, 5) : 0); a.push_back(g.below(1000)); return true; }
        case O_find: a.push_back(g.in(-1, 3 * M)); return true;
        case O_count: { int k = g.in(-1, 3 * M); a.push_back(k); a.push_back(some(g, M)); return true; }
        case O_clear: case O_make: if (g.chance(1, 3)) return true; break;
        case O_copy: if (s != t) { a.push_back(t); return true; } break;
        case O_assign: a.push_back(t); return true;
        case O_walk: a.push_back(g.below(2)); return true;
        case O_xins: if (ACCT) { int n = some(g, M - int(o[s]->size())); if (n < 1) break; a.push_back(g.in(0, 2 * M)); a.push_back(n); a.push_back(MAP ? g.in(0, 5) : 0); a.push_back(1 + some(g, 4 * n + 3)); return true; } break;
        case O_xcopy: case O_xassign: if (ACCT && s != t) { a.push_back(t); a.push_back(1 + some(g, 3 * int(o[t]->size()) + 3)); return true; } break;
        case O_gone: if (g.chance(1, 3)) return true; break;
      }
    }
  }
};
#endif

#if PART == 9
template <int K, int BIG, bool HUGE_ = false> struct BigStream : Sizes {
#define L(X) X(file) X(stream) X(end) X(str) X(fread) X(read) X(drain) X(back) X(clear) X(sgetn) X(sbumpn)
  SUT_OPS(L)
#undef L
  using ios = cest::ios_base;
  cest::FILE* f[K] = {};
  cest::istringstream* i[K] = {};
  int size[K] = {}, pos[K] = {};
  BigStream() { big = BIG; huge = HUGE_; }
  BigStream(const BigStream&) = delete;
  ~BigStream() { for (int s = 0; s < K; ++s) end(s); }
  int end(int s) { int x = 0; if (f[s]) x = cest::fclose(f[s]); delete i[s]; f[s] = nullptr; i[s] = nullptr; return x; }
  void observe(IV& obs) const {
    for (int s = 0; s < K; ++s) {
      obs.push_back(f[s] ? 1 : i[s] ? 2 : 0);
      if (!i[s]) { obs.push_back(0); obs.push_back(0); continue; }
      auto x = i[s]->rdstate();
      int n = (x & ios::badbit ? 1 : 0) + (x & ios::eofbit ? 2 : 0) + (x & ios::failbit ? 4 : 0);
      if (i[s]->good() != (n == 0) || i[s]->eof() != bool(n & 2) || i[s]->fail() != bool(n & 5) || bool(*i[s]) != !(n & 5)) n = -1;
      obs.push_back(n); obs.push_back(int(i[s]->gcount()));
    }
  }
  static DV<char> text(const IV& a) {
    DV<char> v;
    for (std::size_t k = 1; k + 1 < a.size(); k += 2) v.insert(v.end(), std::size_t(a[k + 1]), char(a[k]));
    return v;
  }
  static void told(const char* p, int n, IV& r) {
    Runs x{0}; for (int k = 0; k < n; ++k) x.put(vi(p[k]));
    r.push_back(int(x.r.size() / 2)); for (int k : x.r) r.push_back(k);
  }
  static void rest(const DV<char>& v, int g, IV& r) { for (std::size_t k = std::size_t(g < 0 ? 0 : g); k < v.size(); ++k) if (v[k] != '#') { r.push_back(-9); break; } }
  void apply(int op, IV& a, IV& r) {
    int s = a[0], n = a.size() > 1 ? a[1] : 0;
    switch (op) {
      case O_file: { DV<char> v = text(a); size[s] = int(v.size()); pos[s] = 0; v.push_back('!'); f[s] = cest::fmemopen(v.data(), v.size() - 1, "r"); break; }
      case O_stream: { DV<char> v = text(a); size[s] = int(v.size()); pos[s] = 0; i[s] = new cest::istringstream(cest::string(v.data(), v.size())); break; }
      case O_str: { DV<char> v = text(a); size[s] = int(v.size()); pos[s] = 0; i[s]->str(cest::string(v.data(), v.size())); break; }
      case O_end: r.push_back(end(s)); break;
      case O_fread: {
        DV<char> v(std::size_t(n) + 3, '#');
        int g = int(cest::fread(v.data(), 1, std::size_t(n), f[s]));
        r.push_back(g); told(v.data(), g < 0 ? 0 : g > n ? n : g, r); rest(v, g, r); pos[s] += g;
        break;
      }
      case O_read: {
        DV<char> v(std::size_t(n) + 3, '#');
        i[s]->read(v.data(), n);
        int g = int(i[s]->gcount());
        told(v.data(), g < 0 ? 0 : g > n ? n : g, r); rest(v, g, r); pos[s] += g;
        break;
      }
      case O_sgetn: {
        DV<char> v(std::size_t(n) + 3, '#');
        int g = int(i[s]->rdbuf()->sgetn(v.data(), n));
        r.push_back(g); told(v.data(), g < 0 ? 0 : g > n ? n : g, r); rest(v, g, r); pos[s] += g;
        break;
      }
      case O_sbumpn: {
        DV<char> v; auto b = i[s]->rdbuf();
        for (int k = 0; k < n; ++k) { auto p = b->sgetc(); auto c = b->sbumpc(); if (c == EOF) break; v.push_back(p == c ? char(c) : '?'); }
        told(v.data(), int(v.size()), r); pos[s] += int(v.size());
        break;
      }
      case O_drain: { DV<char> v; char c = 0; while (int(v.size()) < BULK_CAP && i[s]->get(c)) v.push_back(c); told(v.data(), int(v.size()), r); pos[s] += int(v.size()); break; }
      case O_back: for (int k = 0; k < n; ++k) i[s]->unget(); pos[s] -= n; break;
      case O_clear: i[s]->clear(); break;
    }
  }
  bool gen(Rng& g, int& op, IV& a) {
    for (;;) {
      int s = g.below(K), left = size[s] - pos[s];
      a = {s};
      auto fill = [&] {
        int room = pf.maxlen;
        for (int k = g.chance(1, 10) ? 0 : g.in(1, 12), was = -1; k > 0 && room > 0; --k) {
          int n = some(g, room), v = g.in(0, 3) * 85;
          if (n == 0 || v == was) continue;
          was = v; room -= n; a.push_back(v); a.push_back(n);
        }
      };
      op = g.below(NOPS);
      if (f[s] && op > O_end) op = O_fread;
      if (i[s] && g.chance(1, 4)) op = O_read;
      switch (op) {
        case O_file: case O_stream: if (f[s] || i[s]) break; fill(); return true;
        case O_end: if (!f[s] && !i[s]) break; if (g.chance(1, 2)) break; return true;
        case O_str: if (!i[s] || g.chance(1, 2)) break; fill(); return true;
        case O_fread: if (!f[s]) break; a.push_back(g.chance(1, 6) ? left + g.in(0, 2) : some(g, left + 3)); return true;
        case O_read: case O_sgetn: case O_sbumpn: if (!i[s]) break; a.push_back(g.chance(1, 6) ? left + g.in(0, 2) : some(g, left + 3)); return true;
        case O_drain: case O_clear: if (!i[s] || (op == O_drain && g.chance(1, 2))) break; a.push_back(0); return true;
        case O_back: if (!i[s] || i[s]->fail() || !pos[s]) break; a.push_back(g.chance(1, 4) ? pos[s] : 1 + some(g, pos[s] - 1)); return true;
      }
    }
  }
};
#endif
#if PART < 7
#define GO(CNT, SMALL, ...) return drv::dispatch(argc, argv, {__VA_ARGS__, {"L", drv::main_for<SeqSut<CNT(true), Cn<true>, 1, 2, SMALL, true>>}, {"X", drv::main_for<SeqSut<CNT(false), Cn<false>, 1, 2, SMALL, true>>}})
#else
#define GO(CNT, SMALL, ...) return drv::dispatch(argc, argv, {__VA_ARGS__, {"L", drv::main_for<OrdBulk<CNT(true), Cn<true>, PART == 8, 2, SMALL, true>>}, {"X", drv::main_for<OrdBulk<CNT(false), Cn<false>, PART == 8, 2, SMALL, true>>}})
#endif
int main(int argc, char** argv) {
#if PART == 1
#define C_(NX) cest::vector<Cn<NX>, CountAlloc<Cn<NX>>>
  GO(C_, 5000, {"int", drv::main_for<SeqSut<cest::vector<int>, int, 1, 3, 1 << 17>>}, {"H", drv::main_for<SeqSut<cest::vector<int>, int, 1, 2, 80000, false, true>>}, {"E", drv::main_for<SeqSut<cest::vector<E>, E, 1, 2, 4000>>}, {"g", drv::main_for<SeqSut<cest::vector<E>, E, 1, 1, 10>>});
#elif PART == 2
#define C_(NX) cest::deque<Cn<NX>, CountAlloc<Cn<NX>>>
  GO(C_, 5000, {"int", drv::main_for<SeqSut<cest::deque<int>, int, 1, 3, 1 << 16>>}, {"H", drv::main_for<SeqSut<cest::deque<int>, int, 1, 2, 340000, false, true>>}, {"E", drv::main_for<SeqSut<cest::deque<E>, E, 1, 2, 6000>>}, {"g", drv::main_for<SeqSut<cest::deque<E>, E, 1, 1, 10>>});
#elif PART == 3
#define C_(NX) cest::list<Cn<NX>, CountAlloc<Cn<NX>>>
  GO(C_, 2500, {"int", drv::main_for<SeqSut<cest::list<int>, int, 1, 3, 1 << 14>>}, {"H", drv::main_for<SeqSut<cest::list<int>, int, 1, 2, 70000, false, true>>}, {"E", drv::main_for<SeqSut<cest::list<E>, E, 1, 2, 4000>>}, {"g", drv::main_for<SeqSut<cest::list<E>, E, 1, 1, 10>>});
#elif PART == 4
#define C_(NX) cest::forward_list<Cn<NX>, CountAlloc<Cn<NX>>>
  GO(C_, 2500, {"int", drv::main_for<SeqSut<cest::forward_list<int>, int, 1, 3, 1 << 14>>}, {"H", drv::main_for<SeqSut<cest::forward_list<int>, int, 1, 2, 70000, false, true>>}, {"E", drv::main_for<SeqSut<cest::forward_list<E>, E, 1, 2, 4000>>}, {"g", drv::main_for<SeqSut<cest::forward_list<E>, E, 1, 1, 10>>});
#elif PART == 5
#define C_(NX) cest::queue<Cn<NX>, cest::deque<Cn<NX>, CountAlloc<Cn<NX>>>>
  GO(C_, 2500, {"int", drv::main_for<SeqSut<cest::queue<int>, int, 1, 3, 1 << 14>>}, {"H", drv::main_for<SeqSut<cest::queue<int>, int, 1, 2, 70000, false, true>>}, {"E", drv::main_for<SeqSut<cest::queue<E>, E, 1, 2, 4000>>}, {"g", drv::main_for<SeqSut<cest::queue<E>, E, 1, 1, 10>>});
#elif PART == 6
  return drv::dispatch(argc, argv, {{"int", drv::main_for<SeqSut<cest::string, char, 0, 3, 1 << 17>>}, {"H", drv::main_for<SeqSut<cest::string, char, 0, 2, 140000, false, true>>}, {"g", drv::main_for<SeqSut<cest::string, char, 0, 1, 10>>},
    {"L", drv::main_for<SeqSut<cest::basic_string<char, std::char_traits<char>, CountAlloc<char>>, char, 0, 2, 20000, true>>}});
#elif PART == 7
#define C_(NX) cest::set<Cn<NX>, std::less<Cn<NX>>, CountAlloc<Cn<NX>>>
  GO(C_, 2000, {"int", drv::main_for<OrdBulk<cest::set<int>, int, false, 3, 1 << 13>>}, {"H", drv::main_for<OrdBulk<cest::set<int>, int, false, 2, 70000, false, true>>}, {"E", drv::main_for<OrdBulk<cest::set<E>, E, false, 2, 3000>>}, {"g", drv::main_for<OrdBulk<cest::set<E>, E, false, 1, 10>>});
#elif PART == 8
#define C_(NX) cest::map<Cn<NX>, Cn<NX>, std::less<Cn<NX>>, CountAlloc<std::pair<const Cn<NX>, Cn<NX>>>>
  GO(C_, 2000, {"int", drv::main_for<OrdBulk<cest::map<int, int>, int, true, 3, 1 << 13>>}, {"H", drv::main_for<OrdBulk<cest::map<int, int>, int, true, 2, 70000, false, true>>}, {"E", drv::main_for<OrdBulk<cest::map<E, E>, E, true, 2, 3000>>}, {"g", drv::main_for<OrdBulk<cest::map<E, E>, E, true, 1, 10>>});
#elif PART == 9
  return drv::dispatch(argc, argv, {{"int", drv::main_for<BigStream<3, 1 << 17>>}, {"H", drv::main_for<BigStream<2, 80000, true>>}, {"g", drv::main_for<BigStream<1, 10>>}});
#endif
}
