// cest input streams over a client's buffers bound to spec/Source.tla
#include "source_sut.hpp"
#include "runtime_main.hpp"
int main(int argc, char** argv) {
  return drv::dispatch(argc, argv, {{"c1", drv::main_for<SourceSut<char, 1>>}, {"c3", drv::main_for<SourceSut<char, 3>>}, {"t1", drv::main_for<SourceSut<char, 1, OddTraits>>}, {"t2", drv::main_for<SourceSut<char, 2, OddTraits>>}, {"w2", drv::main_for<SourceSut<wchar_t, 2>>}});
}
