// cest::shared_ptr bound to spec/SPtr.tla
#include "heap.hpp"
#include "runtime_main.hpp"
#include "sptr_sut.hpp"
int main(int argc, char** argv) {
  return drv::dispatch(argc, argv, {{"20", drv::main_for<SPtrSut<2, 0, false>>}, {"11", drv::main_for<SPtrSut<1, 1, false>>}, {"21", drv::main_for<SPtrSut<2, 1, false>>}, {"30", drv::main_for<SPtrSut<3, 0, false>>},
                                    {"42", drv::main_for<SPtrSut<4, 2, false>>}, {"x42", drv::main_for<Faulty<SPtrSut<4, 2, false>>>}, {"xa32", drv::main_for<Faulty<SPtrSut<3, 2, true>>>}, {"a11", drv::main_for<SPtrSut<1, 1, true>>}, {"a20", drv::main_for<SPtrSut<2, 0, true>>}, {"a32", drv::main_for<SPtrSut<3, 2, true>>}});
}
