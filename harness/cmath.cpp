// floor, ceil, abs, fabs and integer powers of cest/cmath.hpp bound to spec/CMath.tla
#include "runtime_main.hpp"
#include "cmath_sut.hpp"
int main(int argc, char** argv) { return drv::dispatch(argc, argv, {{"rt", drv::main_for<CMathSut>}}); }
