// The same histories evaluated by the compiler and by the program (C22).
// WHAT selects the type; CT=0 leaves out the evaluation by the compiler.
#include "common.hpp"
#include <cstdio>
#include <cstdlib>
#ifndef CT
#define CT 1
#endif
#ifndef CT_SEED
#define CT_SEED 1
#endif
#ifndef CT_OFF
#define CT_OFF 0
#endif
#ifndef CT_RUNS
#define CT_RUNS 4
#endif
#ifndef CT_LEN
#define CT_LEN 40
#endif
#if WHAT == 1
#include "vector_sut.hpp"
using Sut = VectorSut<E, 2>;
#elif WHAT == 2
#include "deque_sut.hpp"
using Sut = DequeSut<E, 2>;
#elif WHAT == 3
#include "list_sut.hpp"
using Sut = ListSut<E, 2, 2>;
#elif WHAT == 4
#include "flist_sut.hpp"
using Sut = FListSut<E, 2, 2>;
#elif WHAT == 5
#include "set_sut.hpp"
using Sut = SetSut<E, std::less<E>, EProbe, 2, 2>;
#elif WHAT == 6
#include "map_sut.hpp"
using Sut = MapSut<E, std::less<E>, EProbe, 2, 2>;
#elif WHAT == 7
#include "str_sut.hpp"
using Sut = StrSut<char, 3>;
#elif WHAT == 8
#include "queue_sut.hpp"
using Sut = QueueSut<E, cest::deque<E>, 2>;
#elif WHAT == 9
#include "uptr_sut.hpp"
using Sut = UPtrSut<3>;
#elif WHAT == 10
#include "sptr_sut.hpp"
using Sut = SPtrSut<4, 2, false>;
#elif WHAT == 11
#include "sptr_sut.hpp"
using Sut = SPtrSut<3, 2, true>;
#elif WHAT == 12
#include "func_sut.hpp"
using Sut = FuncSut<SigInt, 3>;
#elif WHAT == 13
#include "istream_sut.hpp"
using Sut = IStreamSut<char, 2>;
#elif WHAT == 14
#include "str_sut.hpp"
using Sut = StrSearch<char, 2>;
#elif WHAT == 15
#include "queue_sut.hpp"
using Sut = QueueSut<int, cest::list<int>, 2>;
#elif WHAT == 16
#include "str_sut.hpp"
using Sut = StrSut<wchar_t, 2>;
#elif WHAT == 17
#include "func_sut.hpp"
using Sut = FuncSut<SigVoid, 3>;
#elif WHAT == 18
#include "vector_sut.hpp"
using Sut = VectorSut<int, 2>;
#elif WHAT == 19
#include "set_sut.hpp"
using Sut = SetSut<int, KeyCmp<int, 3, false>, KeyCmp<int, 3, false>, 2, 2>;
#elif WHAT == 20
#include "deque_sut.hpp"
using Sut = DequeSut<int, 2>;
#elif WHAT == 21
#include "source_sut.hpp"
using Sut = SourceSut<char, 2>;
#elif WHAT == 31
#include "stdio_sut.hpp"
using Sut = StdioSut<2>;
#elif WHAT == 32
#include "nswap_sut.hpp"
using Sut = NSwapSut<int, 20>;
#elif WHAT == 33
#include "nswap_sut.hpp"
using Sut = NSwapSut<E, 5>;
#elif WHAT == 34
#include "nswap_sut.hpp"
using Sut = NSwapSut<M, 20>;
#elif WHAT == 35
#include "cmath_sut.hpp"
using Sut = CMathSut;
#elif WHAT == 36
#include "trans_sut.hpp"
using Sut = TransSut<double>;
#elif WHAT == 37
#include "ctype_sut.hpp"
using Sut = CTypeSut;
#elif WHAT == 38
#include "complex_sut.hpp"
using Sut = ComplexSut<double, float, 2, 2000>;
#elif WHAT == 39
#include "complex_sut.hpp"
using Sut = ComplexSut<int, long, 2, 2000>;
#elif WHAT == 40
#include "alg_sut.hpp"
using Sut = AlgSut<KVector<int>, KList<int>, KVector<int>>;
#elif WHAT == 41
#include "alg_sut.hpp"
using Sut = AlgSut<KString, KVector<char>, KString>;
#elif WHAT == 42
#include "alg_sut.hpp"
using Sut = AlgSut<KList<E>, KVector<E>, KDeque<E>>;
#elif WHAT == 43
#include "alg_sut.hpp"
using Sut = AlgSut<KFList<int>, KVector<int>, KDeque<int>>;
#elif WHAT == 44
#include "alg_sut.hpp"
using Sut = AlgSut<KDeque<int>, KList<int>, KSet<int>>;
#elif WHAT == 45
#include "alg_sut.hpp"
using Sut = AlgSut<KSet<int>, KVector<int>, KSet<int>>;
#elif WHAT == 46
#include "alg_sut.hpp"
using Sut = AlgSut<KVector<E>, KVector<E>, KList<E>>;
#elif WHAT == 47
#include "mute_sut.hpp"
using Sut = MuteSut;
#elif WHAT >= 48
#include "iosbits_sut.hpp"
using Sut = BitsSut<WHAT - 48>;
#endif

struct Log {
  static constexpr int N = 120000;
  int d[N] = {}, n = 0;
  constexpr void put(int x) { if (n < N) d[n] = x; ++n; }
  constexpr void put(const IV& v) { put(int(v.size())); for (int x : v) put(x); }
};
constexpr Log run(int seed, int runs, int len) {
  Log l;
  Rng rng{(std::uint64_t(seed) * 1000 + WHAT) * 64 + CT_OFF};
  for (int r = 0; r < runs; ++r) {
    Sut s;
    s.pf.ct = true;
    s.profile(rng, r);
#ifdef CT_BIG      // one that grows
    s.pf.maxlen = CT_BIG; s.bias = 2;
#endif
    IV a, ret, obs;
    s.observe(obs);
    l.put(-1); l.put(a); l.put(a); l.put(obs);
    for (int k = 0; k < len; ++k) {
      int op = 0;
      a.clear(); ret.clear(); obs.clear();
      if (!s.gen(rng, op, a)) break;
      s.apply(op, a, ret);
      s.observe(obs);
      l.put(op); l.put(a); l.put(ret); l.put(obs);
    }
  }
  return l;
}
#if CT
constexpr Log by_compiler = run(CT_SEED, CT_RUNS, CT_LEN);
#endif

static void write(const char* file, const Log& l) {
  FILE* f = std::fopen(file, "w");
  if (!f) { std::perror(file); std::exit(3); }
  if (l.n > Log::N) { std::fprintf(stderr, "log too long\n"); std::exit(3); }
  auto arr = [&](int& i) { int n = l.d[i++]; std::fputc('[', f); for (int k = 0; k < n; ++k) std::fprintf(f, k ? ",%d" : "%d", l.d[i++]); std::fputc(']', f); };
  for (int i = 0; i < l.n;) {
    int op = l.d[i++];
    std::fprintf(f, "{\"op\":\"%s\",\"a\":", op < 0 ? "reset" : Sut::names[op]);
    arr(i); std::fputs(",\"r\":", f); arr(i); std::fputs(",\"s\":", f); arr(i); std::fputs("}\n", f);
  }
  std::fclose(f);
}
int main(int, char** argv) {
  static Log now = run(CT_SEED, CT_RUNS, CT_LEN);
  write(argv[1], now);
#if CT
  write(argv[2], by_compiler);
#endif
}
