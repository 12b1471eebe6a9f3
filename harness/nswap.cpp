// nary::swap / nary::swapr bound to spec/NSwap.tla
#include "runtime_main.hpp"
#include "nswap_sut.hpp"
// The types whose values can only be moved are a driver of their own: if only
// that one does not compile, move-only types are no longer supported.
int main(int argc, char** argv) {
#ifdef MOVE_ONLY
  using U = std::unique_ptr<int>;
  return drv::dispatch(argc, argv, {{"U4", drv::main_for<NSwapSut<U, 4>>}, {"U5", drv::main_for<NSwapSut<U, 5>>},
    {"T4", drv::main_for<NSwapSut<Throwing, 4>>}, {"U20", drv::main_for<NSwapSut<U, 20>>}});
#else
  return drv::dispatch(argc, argv, {{"int4", drv::main_for<NSwapSut<int, 4>>}, {"E4", drv::main_for<NSwapSut<E, 4>>},
    {"E5", drv::main_for<NSwapSut<E, 5>>}, {"int20", drv::main_for<NSwapSut<int, 20>>}, {"B20", drv::main_for<NSwapSut<Big, 20>>}, {"V20", drv::main_for<NSwapSut<cest::vector<int>, 20>>}, {"S20", drv::main_for<NSwapSut<cest::shared_ptr<int>, 20>>}});
#endif
}
