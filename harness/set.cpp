// cest::set bound to spec/OrdSet.tla and spec/RBTree.tla
#include "runtime_main.hpp"
#include "set_sut.hpp"
using IntS = std::less<>;
using ES = std::less<E>;
int main(int argc, char** argv) {
#ifdef WIDE  // wide elements
  return drv::dispatch(argc, argv, {{"W", drv::main_for<SetSut<W, std::less<W>, EProbe, 2, 2>>}});
#else
  return drv::dispatch(argc, argv, {
    {"E10", drv::main_for<SetSut<E, ES, EProbe, 1, 0>>}, {"int10", drv::main_for<SetSut<int, IntS, IntProbe, 1, 0>>},
    {"E1", drv::main_for<SetSut<E, ES, EProbe, 1, 1>>}, {"E20", drv::main_for<SetSut<E, ES, EProbe, 2, 0>>},
    {"E3", drv::main_for<SetSut<E, ES, EProbe, 3, 3>>},
    {"tag10", drv::main_for<SetSut<E, KeyCmp<E, 2, false>, KeyCmp<E, 2, false>, 1, 0>>},
    {"tag", drv::main_for<SetSut<E, KeyCmp<E, 3, false>, KeyCmp<E, 3, false>, 2, 2>>},
    {"desc", drv::main_for<SetSut<int, KeyCmp<int, 1, true>, KeyCmp<int, 1, true>, 2, 2>>}});
#endif
}
