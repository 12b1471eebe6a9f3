#pragma once
#include "common.hpp"
#include "kmath.hpp"
#include <cest/cctype.hpp>
constexpr int tab(int c) { return (cest::isalnum(c) ? 1 : 0) | (cest::isupper(c) ? 2 : 0); }
struct CTypeSut : SutBase {
#define L(X) X(isalnum) X(isupper)
  SUT_OPS(L)
#undef L
  constexpr void observe(IV&) const {}
  constexpr void apply(int op, IV& a, IV& r) {
    int k = tab(a[0]);
    r.push_back(op == O_isalnum ? (k & 1) : (k >> 1));
  }
  constexpr bool gen(Rng& g, int& op, IV& a) { op = g.below(2); a = {g.in(-1, 255)}; return true; }
};
