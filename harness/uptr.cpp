// cest::unique_ptr bound to spec/UPtr.tla
#include "heap.hpp"
#include "runtime_main.hpp"
#include "uptr_sut.hpp"
int main(int argc, char** argv) {
  return drv::dispatch(argc, argv, {{"2", drv::main_for<UPtrSut<2>>}, {"3", drv::main_for<UPtrSut<3>>}, {"5", drv::main_for<UPtrSut<5>>}});
}
