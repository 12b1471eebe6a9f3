// the transcendental functions of cest/cmath.hpp and cest/complex.hpp bound to spec/Trans.tla
#include "runtime_main.hpp"
#include "trans_sut.hpp"
int main(int argc, char** argv) { return drv::dispatch(argc, argv, {{"d", drv::main_for<TransSut<double>>}, {"f", drv::main_for<TransSut<float>>}}); }
