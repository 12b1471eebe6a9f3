// cest::vector bound to spec/Vector.tla
#include "runtime_main.hpp"
#include "vector_sut.hpp"
int main(int argc, char** argv) {
#ifdef MOVE_ONLY   // elements that can only be moved: a driver of their own
  return drv::dispatch(argc, argv, {{"M", drv::main_for<VectorSut<M, 2>>}});
#elif defined WIDE  // wide elements
  return drv::dispatch(argc, argv, {{"W", drv::main_for<VectorSut<W, 2>>}});
#else
  return drv::dispatch(argc, argv, {{"int", drv::main_for<VectorSut<int, 2>>}, {"E", drv::main_for<VectorSut<E, 2>>},
                                    {"E1", drv::main_for<VectorSut<E, 1>>}});
#endif
}
