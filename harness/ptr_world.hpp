#pragma once
#include "common.hpp"
// The objects smart pointers own: numbered, they tell the world about their end.
constexpr int MAXID = 12;
struct World {
  bool alive[MAXID + 1] = {};
  int n = 0;                       // how many
  int gone[4 * MAXID] = {};        // what ended during the current call, in order
  int ng = 0;
  constexpr int fresh() const { for (int i = 1; i <= MAXID; ++i) if (!alive[i]) return i; return 0; }
  constexpr void born(int id) { if (alive[id]) note(-id); alive[id] = true; ++n; }
  constexpr void note(int x) { if (ng < 4 * MAXID) gone[ng++] = x; }
  constexpr void died(int id) { note(alive[id] ? id : -id); alive[id] = false; --n; }
  constexpr void report(IV& r) { for (int i = 0; i < ng; ++i) r.push_back(gone[i]); ng = 0; }
};
// counts the blocks the code under test holds (run time only; in constant
// expressions the compiler refuses leaks)
struct Counting {
#ifdef HEAP_COUNT
  bool was = false;
  constexpr Counting() { if (!std::is_constant_evaluated()) { was = heap::on; heap::on = true; } }
  constexpr ~Counting() { if (!std::is_constant_evaluated()) heap::on = was; }
#else
  constexpr Counting() {}
  constexpr ~Counting() {}
#endif
};
// 1 unless memory is held although nothing is to be held
constexpr int no_leak(bool nothing) {
#ifdef HEAP_COUNT
  if (!std::is_constant_evaluated()) return !nothing || heap::live == 0;
#endif
  return nothing || true;
}
#ifdef HEAP_COUNT
#define SPARED_NEW                                                                                  \
  static void* operator new(std::size_t n) { heap::Spared s; return ::operator new(n); }            \
  static void* operator new[](std::size_t n) { heap::Spared s; return ::operator new[](n); }
// The calls of a driver, some of them with an allocation that fails: "x_<op>",
// the number of that allocation behind the arguments; told: whether one failed,
// whether the call did.
template <class S> struct Faulty : S {
  static constexpr int N = S::NOPS, NOPS = 2 * N;
  struct Names {
    char text[N][40]; const char* all[2 * N];
    constexpr Names() : text{}, all{} {
      for (int i = 0; i < N; ++i) {
        int k = 0;
        for (char c : {'x', '_'}) text[i][k++] = c;
        for (const char* p = S::names[i]; *p; ++p) text[i][k++] = *p;
        all[i] = S::names[i];
      }
    }
  };
  static constexpr Names made{};
  static constexpr struct At { constexpr const char* operator[](int i) const { return i < N ? S::names[i] : made.text[i - N]; } } names{};
  void apply(int op, IV& a, IV& r) {
    if (op < N) { S::apply(op, a, r); return; }
    IV b(a.begin(), a.end() - 1), q;
    bool threw = false;
    heap::failed = false; heap::countdown = a.back();
    try { S::apply(op - N, b, q); } catch (const std::bad_alloc&) { threw = true; }
    heap::countdown = 0;
    if (threw) { q.clear(); this->failed(q); }
    r.push_back(heap::failed); r.push_back(threw);
    r.insert(r.end(), q.begin(), q.end());
  }
  bool gen(Rng& g, int& op, IV& a) {
    if (!S::gen(g, op, a)) return false;
    if (g.chance(2, 5) && this->may_fail(op, a)) { op += N; a.push_back(1 + g.below(4)); }
    return true;
  }
};
#else
#define SPARED_NEW
#endif
