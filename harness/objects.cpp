// Value semantics (C13): the drivers of all containers, with histories in
// which every third call copies, assigns, moves or swaps whole objects.
#include "runtime_main.hpp"
#if WHAT == 1
#include "vector_sut.hpp"
template <class T, int K> using Sut = VectorSut<T, K>;
#elif WHAT == 2
#include "deque_sut.hpp"
template <class T, int K> using Sut = DequeSut<T, K>;
#elif WHAT == 3
#include "list_sut.hpp"
template <class T, int K> using Sut = ListSut<T, K, 0>;
#elif WHAT == 4
#include "flist_sut.hpp"
template <class T, int K> using Sut = FListSut<T, K, 0>;
#elif WHAT == 5
#include "set_sut.hpp"
template <class T, int K> using Sut = SetSut<T, std::less<T>, EProbe, K, 0>;
#elif WHAT == 6
#include "map_sut.hpp"
template <class T, int K> using Sut = MapSut<T, std::less<T>, EProbe, K, 0>;
#elif WHAT == 7
#include "str_sut.hpp"
template <class T, int K> using Sut = StrSut<std::conditional_t<std::is_same_v<T, int>, wchar_t, char>, K>;
#else
#include "queue_sut.hpp"
template <class T, int K> using Sut = QueueSut<T, std::conditional_t<std::is_same_v<T, int>, cest::list<T>, cest::deque<T>>, K>;
#endif

template <class S, int K> struct CopyHeavy : S {
  void profile(Rng& g, int run) { S::profile(g, run); if (this->pf.maxlen > 12) this->pf.maxlen = 12; }
  bool gen(Rng& g, int& op, IV& a) {
    if (g.chance(1, 3)) {
      const char* const want[] = {"copy", "assign", "assign", "take", "mtake", "move_new", "massign", "swap", "make"};
      const char* w = want[g.below(9)];
      for (int i = 0; i < S::NOPS; ++i) if (str_eq(S::names[i], w)) {
        int s = g.below(K), t = g.below(K);
        if (str_eq(w, "make")) { op = i; a = {s}; return true; }
        if (s == t && !str_eq(w, "assign")) break;
        op = i; a = {s, t};
        return true;
      }
    }
    return S::gen(g, op, a);
  }
};
int main(int argc, char** argv) {
#ifdef WIDE  // wide elements
  return drv::dispatch(argc, argv, {{"W", drv::main_for<CopyHeavy<Sut<W, 3>, 3>>}});
#else
  return drv::dispatch(argc, argv, {{"g", drv::main_for<Sut<E, 2>>}, {"E", drv::main_for<CopyHeavy<Sut<E, 4>, 4>>}, {"int", drv::main_for<CopyHeavy<Sut<int, 3>, 3>>}});
#endif
}
