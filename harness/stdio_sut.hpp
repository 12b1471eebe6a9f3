#pragma once
#include "ptr_world.hpp"
#include <cest/cstdio.hpp>
#include <cest/sstream.hpp>

template <int K> struct StdioSut : SutBase {
#define L(X) X(open) X(read) X(scribble) X(close)
  SUT_OPS(L)
#undef L
  cest::FILE* f[K] = {};
  DV<char> buf[K];
  int left[K] = {};
  constexpr StdioSut() {}
  StdioSut(const StdioSut&) = delete;
  constexpr ~StdioSut() { Counting c; for (auto& x : f) if (x) cest::fclose(x); }
  constexpr void observe(IV& obs) const {
    int n = 0;
    for (auto x : f) n += x != nullptr;
    obs.push_back(n);
    obs.push_back(no_leak(n == 0));
  }
  constexpr void apply(int op, IV& a, IV& r) {
    int s = a[0], n = a.size() > 1 ? a[1] : 0;
    switch (op) {
      case O_open: {
        buf[s].clear();
        for (std::size_t k = 1; k < a.size(); ++k) buf[s].push_back(char(a[k]));
        left[s] = int(buf[s].size());
        buf[s].push_back('!');            // not part of it
        Counting c;
        f[s] = cest::fmemopen(buf[s].data(), buf[s].size() - 1, left[s] % 2 ? "r" : "rb");
        break;
      }
      case O_read: {
        DV<char> v(std::size_t(n) + 3, '#');
        std::size_t g;
        { Counting c; g = cest::fread(v.data(), 1, std::size_t(n), f[s]); }
        r.push_back(int(g));
        for (std::size_t k = 0; k < g && k < std::size_t(n); ++k) r.push_back(int(static_cast<unsigned char>(v[k])));
        for (std::size_t k = g; k < std::size_t(n) + 3; ++k) if (v[k] != '#') { r.push_back(-9); break; }
        left[s] -= int(g);
        break;
      }
      case O_scribble: for (auto& x : buf[s]) x = '?'; buf[s] = DV<char>(); break;
      case O_close: { Counting c; r.push_back(cest::fclose(f[s])); f[s] = nullptr; break; }
    }
  }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), k = g.below(100);
    a = {s};
    if (!f[s]) {
      op = O_open;
      int n = g.chance(1, 8) ? 0 : g.below(pf.ct ? 12 : g.chance(1, 12) ? 700 : 2 * pf.maxlen + 1);
      int kind = g.below(3);
      for (int j = 0; j < n; ++j) a.push_back(kind == 0 ? g.below(256) : kind == 1 ? (g.chance(1, 2) ? 255 : 0) : g.in(97, 122));
    }
    else if (k < 80) { op = O_read; a.push_back(g.chance(1, 6) ? left[s] + g.in(-1, 1) < 0 ? 0 : left[s] + g.in(0, 1) : g.chance(1, 10) ? g.below(left[s] + 30) : g.below(6)); }
    else if (k < 90) op = O_scribble;
    else op = O_close;
    return true;
  }
};
