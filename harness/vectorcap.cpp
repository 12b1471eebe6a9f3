// cest::vector bound to spec/VectorCap.tla
#include "runtime_main.hpp"
#include <cest/vector.hpp>

static std::map<const void*, long> g_serial;   // live allocations -> serial number
static long g_next = 0;
template <class T> struct SerialAlloc {
  using value_type = T;
  SerialAlloc() = default;
  template <class U> SerialAlloc(const SerialAlloc<U>&) {}
  T* allocate(std::size_t n) { T* p = std::allocator<T>().allocate(n ? n : 1); g_serial[p] = ++g_next; return p; }
  void deallocate(T* p, std::size_t n) { g_serial.erase(p); std::allocator<T>().deallocate(p, n ? n : 1); }
  friend bool operator==(const SerialAlloc&, const SerialAlloc&) { return true; }
};

template <class T, int K> struct CapSut : SutBase {
  static constexpr bool always_look = true;
#define L(X) X(make) X(make_n) X(make_il) X(push) X(push_mv) X(push_own) X(pop) X(resize) X(reserve) X(clear) \
  X(erase) X(copy) X(move_new) X(assign) X(massign) X(swap) X(fill) X(grow)
  SUT_OPS(L)
#undef L
  using V = cest::vector<T, SerialAlloc<T>>;
  V* o[K];
  static constexpr int big = std::is_same_v<T, int> ? 150000 : 20000;
  CapSut() { for (auto& p : o) p = new V(); }
  ~CapSut() { for (auto& p : o) delete p; }
  void put(int s, V* n) { delete o[s]; o[s] = n; }
  void observe(IV& obs) const { for (auto p : o) { obs.push_back(int(p->size())); obs.push_back(int(p->capacity())); } }
  static long token(const V& v) {
    if (v.capacity() == 0) return 0;
    for (std::size_t i = 0; i < v.size(); ++i) if (&v[i] != v.data() + i || v.begin() + i != &v[i]) return -7;
    auto it = g_serial.find(v.data());
    return it == g_serial.end() ? -9 : it->second;
  }
  // n elements appended one at a time: how often the storage was replaced, and
  // whether that was ever without need, or the capacity what it must not be
  static int appended(V& v, int n, int& ok) {
    long last = token1(v); int k = 0;
    for (int i = 0; i < n; ++i) {
      auto cap = v.capacity(), size = v.size();
      v.push_back(T(i));
      long t = token1(v);
      if (t != last) { ++k; last = t; if (size < cap) ok = 0; }
      if (v.capacity() < cap || v.size() != size + 1 || v.capacity() < v.size() || v.data() != &v[0]) ok = 0;
    }
    return k;
  }
  void apply(int op, IV& a, IV& r) {
    if (op == O_fill) {
      V u; std::size_t n0 = std::size_t(a[1]);
      int ok = 1;
      switch (a[2]) {   // where it starts
        case 0: { V x(n0); u = x; break; }
        case 1: u.resize(n0); break;
        case 2: u.reserve(n0); if (u.capacity() < n0 || u.size() != 0) ok = -1; break;
        case 5: { V x; x.reserve(n0); u.swap(x); if (u.capacity() < n0) ok = -1; break; }
        default: for (int i = 0; i < a[1]; ++i) u.push_back(T(i));
      }
      if (a[2] == 1 && (u.size() != n0 || u.capacity() < n0)) ok = -2;
      V w(u);
      V& v = a[2] == 4 ? w : u;
      int k = appended(v, a[0], ok);
      // taken off again, all of it or half: nothing moves, nothing is given back
      auto full = v.capacity(); long t = token1(v);
      if (a[0] % 2) v.resize(v.size() / 2); else v.clear();
      if (v.capacity() != full || token1(v) != t) ok = -3;
      v.reserve(full); v.resize(full);
      if (v.capacity() != full || token1(v) != t || v.size() != full) ok = -4;
      r.push_back(k); r.push_back(ok);
      return;
    }
    if (op == O_grow) {   // n appended, then taken off again: how often was the storage replaced
      V& v = *o[a[0]]; int ok = 1, k = appended(v, a[1], ok);
      for (int i = 0; i < a[1]; ++i) v.pop_back();
      if (a.size() > 2) a.resize(2);
      if (a[1] > 4) { a.push_back(int(v.capacity())); a.push_back(k); }
      r.push_back(k); r.push_back(ok);
      return;
    }
    long before[K];
    for (int s = 0; s < K; ++s) before[s] = token(*o[s]);
    V& v = *o[a[0]];
    switch (op) {
      case O_make: put(a[0], new V()); break;
      case O_make_n: put(a[0], new V(std::size_t(a[1]))); break;
      case O_make_il: {
        switch (a[1]) {
          case 0: put(a[0], new V(std::initializer_list<T>{})); break;
          case 1: put(a[0], new V({T(1)})); break;
          case 2: put(a[0], new V({T(1), T(2)})); break;
          case 3: put(a[0], new V({T(1), T(2), T(3)})); break;
          case 4: put(a[0], new V({T(1), T(2), T(3), T(4)})); break;
          case 5: put(a[0], new V({T(1), T(2), T(3), T(4), T(5)})); break;
          default: put(a[0], new V({T(1), T(2), T(3), T(4), T(5), T(6)})); break;
        }
        break;
      }
      case O_push: { const T x(1); v.push_back(x); break; }
      case O_push_mv: v.push_back(T(2)); break;
      case O_push_own: v.push_back(v[std::size_t(a[1])]); break;
      case O_pop: v.pop_back(); break;
      case O_resize: v.resize(std::size_t(a[1])); break;
      case O_reserve: v.reserve(std::size_t(a[1])); break;
      case O_clear: v.clear(); break;
      case O_erase: v.erase(v.begin() + a[1], v.begin() + a[2]); break;
      case O_copy: put(a[0], new V(*o[a[1]])); break;
      case O_move_new: put(a[0], new V(std::move(*o[a[1]]))); break;
      case O_assign: v = *o[a[1]]; break;
      case O_massign: v = std::move(*o[a[1]]); break;
      case O_swap: v.swap(*o[a[1]]); break;
    }
    for (int s = 0; s < K; ++s) {
      long now = token(*o[s]); int who = now < 0 ? int(now) : -1;
      for (int t = 0; t < K; ++t) if (now > 0 && now == before[t]) who = t;
      r.push_back(who);
    }
  }
  static long token1(const V& v) { auto it = g_serial.find(v.data()); return it == g_serial.end() ? -9 : it->second; }
  bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), n = int(o[s]->size()), M = pf.maxlen;
    a = {s};
    int k = g.below(100);
    if (k < 60) {
      if (want_grow(g) && n < M) {
        int j = g.below(3);
        if (j == 2 && n) { op = O_push_own; a.push_back(g.below(n)); } else op = j ? O_push_mv : O_push;
      } else if (n) op = O_pop; else op = O_push;
    } else if (k < 67) { op = O_resize; a.push_back(g.in(0, M)); }
    else if (k < 73) { op = O_reserve; a.push_back(g.in(0, M)); }
    else if (k < 76) op = g.chance(1, 2) ? O_clear : O_make;
    else if (k < 81) { op = O_erase; int i = g.in(0, n); a.push_back(i); a.push_back(g.in(i, n)); }
    else if (k < 83) { op = O_make_n; a.push_back(g.in(0, M)); }
    else if (k < 84) { op = O_make_il; a.push_back(g.in(0, 6)); }
    else if (k < 87 && s != t) { op = O_copy; a.push_back(t); }
    else if (k < 90 && s != t) { op = O_move_new; a.push_back(t); }
    else if (k < 93) { op = O_assign; a.push_back(t); }
    else if (k < 96 && s != t) { op = O_massign; a.push_back(t); }
    else if (k < 99 && (s != t || g.chance(1, 4))) { op = O_swap; a.push_back(t); }
    else if (g.chance(1, 2)) { op = O_grow; a.push_back(g.in(1, 400)); }
    else { op = O_fill; a = {g.chance(1, 6) ? g.in(1, big) : g.in(1, 600), g.chance(1, 2) ? 0 : g.chance(1, 4) ? g.in(1, big) : g.in(1, 300), g.below(6)}; }
    return true;
  }
};
int main(int argc, char** argv) {
#ifdef WIDE  // wide elements
  return drv::dispatch(argc, argv, {{"W", drv::main_for<CapSut<W, 2>>}});
#else
  return drv::dispatch(argc, argv, {{"int1", drv::main_for<CapSut<int, 1>>}, {"E1", drv::main_for<CapSut<E, 1>>},
                                    {"E", drv::main_for<CapSut<E, 3>>}, {"int", drv::main_for<CapSut<int, 2>>}});
#endif
}
