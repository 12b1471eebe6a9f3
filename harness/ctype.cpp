// cest::isalnum, cest::isupper bound to spec/CType.tla
#include "runtime_main.hpp"
#include "ctype_sut.hpp"
int main(int argc, char** argv) { return drv::dispatch(argc, argv, {{"rt", drv::main_for<CTypeSut>}}); }
