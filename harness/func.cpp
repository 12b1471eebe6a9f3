// cest::function bound to spec/Func.tla
#include "heap.hpp"
#include "runtime_main.hpp"
#include "func_sut.hpp"
int main(int argc, char** argv) {
#ifdef MOVE_ONLY   // arguments that can only be moved: a driver of their own
  return drv::dispatch(argc, argv, {{"move3", drv::main_for<FuncSut<SigMove, 3>>}, {"move2", drv::main_for<FuncSut<SigMove, 2>>},
                                    {"vmove3", drv::main_for<FuncSut<SigVoidMove, 3>>}});
#else
  return drv::dispatch(argc, argv, {{"int1", drv::main_for<FuncSut<SigInt, 1>>}, {"int2", drv::main_for<FuncSut<SigInt, 2>>}, {"int4", drv::main_for<FuncSut<SigInt, 4>>},
                                    {"void3", drv::main_for<FuncSut<SigVoid, 3>>}, {"ref3", drv::main_for<FuncSut<SigRef, 3>>},
                                    {"xint4", drv::main_for<Faulty<FuncSut<SigInt, 4>>>}, {"xvoid3", drv::main_for<Faulty<FuncSut<SigVoid, 3>>>},
                                    {"void1", drv::main_for<FuncSut<SigVoid, 1>>}});
#endif
}
