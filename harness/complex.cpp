// cest::complex bound to spec/Complex.tla
#include "complex_sut.hpp"
#include "runtime_main.hpp"
int main(int argc, char** argv) {
  return drv::dispatch(argc, argv, {{"d1", drv::main_for<ComplexSut<double, float, 1, 4>>}, {"d2", drv::main_for<ComplexSut<double, float, 2, 1>>},
    {"f2", drv::main_for<ComplexSut<float, double, 2, 1>>}, {"i2", drv::main_for<ComplexSut<int, long, 2, 1>>},
    {"d3", drv::main_for<ComplexSut<double, long double, 3, 20000>>}, {"f3", drv::main_for<ComplexSut<float, double, 3, 2000>>},
    {"l3", drv::main_for<ComplexSut<long double, double, 3, 20000>>}, {"i3", drv::main_for<ComplexSut<int, long, 3, 20000>>}});
}
