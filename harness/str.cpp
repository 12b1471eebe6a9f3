// cest::basic_string bound to spec/Str.tla
#include "runtime_main.hpp"
#include "str_sut.hpp"
int main(int argc, char** argv) {
  return drv::dispatch(argc, argv, {
    {"c1", drv::main_for<StrSut<char, 1>>}, {"c2", drv::main_for<StrSut<char, 2>>}, {"c3", drv::main_for<StrSut<char, 3>>},
    {"w2", drv::main_for<StrSut<wchar_t, 2>>}, {"u16", drv::main_for<StrSut<char16_t, 2>>},
    {"s2", drv::main_for<StrSearch<char, 2>>}, {"ws2", drv::main_for<StrSearch<wchar_t, 2>>}, {"us2", drv::main_for<StrSearch<char32_t, 2>>}, {"ci1", drv::main_for<StrSut<char, 1, CiTraits<char>>>}, {"ci2", drv::main_for<StrSut<char, 2, CiTraits<char>>>},
    {"cis2", drv::main_for<StrSearch<char, 2, CiTraits<char>>>}, {"wcis2", drv::main_for<StrSearch<wchar_t, 2, CiTraits<wchar_t>>>}, {"u82", drv::main_for<StrSearch<char8_t, 2>>}});
}
