#pragma once
#include "common.hpp"
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
#include <cest/string.hpp>
#include <cest/memory.hpp>
// Output in constant expressions: it reaches no sink, but it is allowed, gives
// the stream back, and leaves the stream and its buffer as they were.
struct MuteSut : SutBase {
#define L(X) X(str) X(lit) X(chr) X(num) X(base) X(endl) X(flush) X(print) X(ptr) X(get)
  SUT_OPS(L)
#undef L
  cest::basic_stringbuf<char> buf{cest::string("abc")};
  cest::ostream own{&buf};
  constexpr MuteSut() {}
  MuteSut(const MuteSut&) = delete;
  constexpr cest::ostream& os(int s) { return s == 0 ? cest::cout : s == 1 ? cest::cerr : s == 2 ? cest::clog : own; }
  constexpr void observe(IV& o) const { o.push_back(own.good()); o.push_back(own.rdbuf() == &buf); }
  template <class... X> constexpr bool pr(int s, const char* f, X... x) {
    if (!std::is_constant_evaluated()) return true;
    if (s == 4) return cest::printf(f, x...) == 0;
    return cest::fprintf(s == 0 ? cest::stdout : s == 1 ? cest::stderr : &os(s), f, x...) == 0;
  }
  // what is tried at run time is tried on a stream of its own only
  constexpr void apply(int op, IV& a, IV& r) {
    bool ct = std::is_constant_evaluated();
    int s = a[0], x = a[1];
    cest::ostream& o = ct && s < 4 ? os(s) : own;
    cest::ostream* b = &o;
    bool ok = true;
    int* p = nullptr;
    cest::unique_ptr<int> u(new int(x));
    cest::shared_ptr<int> sh(new int(x));
    cest::string t("x\0y", 3);
    if (!ct) { r.push_back(1); return; }
    switch (op) {
      case O_str: b = &(o << t); break;
      case O_lit: b = &(o << "text" << "" << 'c'); break;
      case O_chr: b = x % 3 == 0 ? &(o << char(x)) : x % 3 == 1 ? &(o << static_cast<unsigned char>(x)) : &(o << static_cast<signed char>(x % 100)); break;
      case O_num: b = x % 4 == 0 ? &(o << x << static_cast<unsigned short>(x)) : x % 4 == 1 ? &(o << unsigned(x) << static_cast<unsigned long>(x))
                                                : x % 4 == 2 ? &(o << long(x) << static_cast<long long>(x)) : &(o << short(x) << static_cast<unsigned long long>(x) << bool(x)); break;
      case O_base: b = x % 3 == 0 ? &(o << cest::hex) : x % 3 == 1 ? &(o << cest::oct) : &(o << cest::dec); break;
      case O_endl: b = &(o << cest::endl); break;
      case O_flush: b = &own; ok = &own.flush() == &own; o << ""; b = &o; break;
      case O_print: ok = pr(s, "50%%\n") && pr(s, "%d %s", x, "text") && pr(s, "%c%x", x, x); break;
      case O_ptr: b = &(o << u << sh << static_cast<const void*>(p)); ok = *u == x && *sh == x && sh.use_count() == 1; break;
      case O_get: ok = own.good() && !own.fail() && !own.eof() && own.tie() == nullptr && bool(own) && !!own; break;
    }
    r.push_back(b == &o && ok);
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    op = g.below(NOPS);
    a = {g.below(op == O_print ? 5 : 4), g.below(300)};
    return true;
  }
};
