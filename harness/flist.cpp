// cest::forward_list bound to spec/FList.tla
#include "runtime_main.hpp"
#include "flist_sut.hpp"
int main(int argc, char** argv) {
#ifdef WIDE  // wide elements
  return drv::dispatch(argc, argv, {{"W", drv::main_for<FListSut<W, 2, 2>>}});
#else
  return drv::dispatch(argc, argv, {{"E10", drv::main_for<FListSut<E, 1, 0>>}, {"E1", drv::main_for<FListSut<E, 1, 1>>}, {"E2", drv::main_for<FListSut<E, 2, 1>>},
                                    {"E3", drv::main_for<FListSut<E, 3, 3>>}, {"int", drv::main_for<FListSut<int, 2, 2>>}});
#endif
}
