// The re-exported algorithms over cest's containers, bound to spec/Alg.tla
#include "runtime_main.hpp"
#include "alg_sut.hpp"
int main(int argc, char** argv) {
  using namespace drv;
  return dispatch(argc, argv, {
#if PART == 1
    {"vec", main_for<AlgSut<KVector<int>, KList<int>, KVector<int>>>},
    {"vecE", main_for<AlgSut<KVector<E>, KVector<E>, KList<E>>>},
#elif PART == 2
    {"str", main_for<AlgSut<KString, KVector<char>, KString>>},
    {"list", main_for<AlgSut<KList<int>, KFList<int>, KSet<int>>>},
#elif PART == 3
    {"listE", main_for<AlgSut<KList<E>, KVector<E>, KDeque<E>>>},
    {"flist", main_for<AlgSut<KFList<int>, KVector<int>, KDeque<int>>>},
    {"deque", main_for<AlgSut<KDeque<int>, KList<int>, KVector<int>>>},
#else
    {"dequeE", main_for<AlgSut<KDeque<E>, KList<E>, KSet<E>>>},
    {"set", main_for<AlgSut<KSet<int>, KVector<int>, KSet<int>>>},
    {"setE", main_for<AlgSut<KSet<E>, KList<E>, KVector<E>>>},
#endif
  });
}
