// cest::fmemopen, fread and fclose bound to spec/Stdio.tla
#include "heap.hpp"
#include "runtime_main.hpp"
#include "stdio_sut.hpp"
int main(int argc, char** argv) {
  return drv::dispatch(argc, argv, {{"1", drv::main_for<StdioSut<1>>}, {"2", drv::main_for<StdioSut<2>>}, {"4", drv::main_for<StdioSut<4>>}});
}
