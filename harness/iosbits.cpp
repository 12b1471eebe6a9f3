// the bitmask types of cest/ios_base.hpp bound to spec/IosBits.tla
#include "runtime_main.hpp"
#include "iosbits_sut.hpp"
int main(int argc, char** argv) { return drv::dispatch(argc, argv, {{"flags", drv::main_for<BitsSut<0>>}, {"modes", drv::main_for<BitsSut<1>>}, {"states", drv::main_for<BitsSut<2>>}}); }
