// cest::list bound to spec/List.tla
#include "runtime_main.hpp"
#include "list_sut.hpp"
int main(int argc, char** argv) {
#ifdef WIDE  // wide elements
  return drv::dispatch(argc, argv, {{"W", drv::main_for<ListSut<W, 2, 2>>}});
#else
  return drv::dispatch(argc, argv, {{"E10", drv::main_for<ListSut<E, 1, 0>>}, {"E1", drv::main_for<ListSut<E, 1, 1>>}, {"E2", drv::main_for<ListSut<E, 2, 1>>},
                                    {"E20", drv::main_for<ListSut<E, 2, 0>>}, {"E3", drv::main_for<ListSut<E, 3, 3>>}, {"int", drv::main_for<ListSut<int, 2, 2>>}});
#endif
}
