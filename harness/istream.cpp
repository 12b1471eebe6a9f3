// cest string input streams bound to spec/IStream.tla
#include "runtime_main.hpp"
#include "istream_sut.hpp"
int main(int argc, char** argv) {
  return drv::dispatch(argc, argv, {{"c1", drv::main_for<IStreamSut<char, 1>>}, {"c3", drv::main_for<IStreamSut<char, 3>>}, {"w2", drv::main_for<IStreamSut<wchar_t, 2>>}, {"t1", drv::main_for<IStreamSut<char, 1, OddTraits>>}, {"t2", drv::main_for<IStreamSut<char, 2, OddTraits>>}, {"w1", drv::main_for<IStreamSut<wchar_t, 1>>}});
}
