#pragma once
#include "common.hpp"
#include <cest/sstream.hpp>
#include <ios>

template <class Ch, int K, class Tr = std::char_traits<Ch>> struct IStreamSut : SutBase {
#define L(X) X(new) X(str) X(get) X(read) X(unget) X(clear) X(setstate) X(exceptions) X(sgetc) X(sbumpc) X(snextc) X(sungetc) X(sgetn) X(pubsync) X(drain) X(text)
  SUT_OPS(L)
#undef L
  using S = cest::basic_string<Ch, Tr, std::allocator<Ch>>;
  using I = cest::basic_istringstream<Ch, Tr>;
  using IO = cest::basic_stringstream<Ch, Tr>;
  using B = cest::basic_istream<Ch, Tr>;
  using ios = cest::ios_base;
  I* i[K] = {};
  IO* io[K] = {};
  B* b[K] = {};
  constexpr IStreamSut() { for (int s = 0; s < K; ++s) b[s] = i[s] = new I(); }
  IStreamSut(const IStreamSut&) = delete;
  constexpr void drop(int s) { if (i[s]) delete i[s]; else delete b[s]; i[s] = nullptr; io[s] = nullptr; b[s] = nullptr; }
  constexpr ~IStreamSut() { for (int s = 0; s < K; ++s) drop(s); }
  static constexpr int code(Ch c) { return std::is_same_v<Ch, char> ? int(static_cast<unsigned char>(c)) : int(c); }
  static constexpr int code_of(typename B::int_type c) { return Tr::eq_int_type(c, Tr::eof()) ? -1 : int(c) - (std::is_same_v<Tr, OddTraits> ? 1000 : 0); }
  static constexpr int num(ios::iostate x) { return (x & ios::badbit ? 1 : 0) + (x & ios::eofbit ? 2 : 0) + (x & ios::failbit ? 4 : 0); }
  static constexpr ios::iostate bits(int n) {
    ios::iostate x = ios::goodbit;
    if (n & 1) x |= ios::badbit;
    if (n & 2) x |= ios::eofbit;
    if (n & 4) x |= ios::failbit;
    return x;
  }
  constexpr void observe(IV& obs) const {
    for (int s = 0; s < K; ++s) {
      const B& x = *b[s];
      obs.push_back(num(x.rdstate())); obs.push_back(x.good()); obs.push_back(x.eof()); obs.push_back(x.fail());
      obs.push_back(bool(x)); obs.push_back(!x); obs.push_back(num(x.exceptions())); obs.push_back(int(x.gcount()));
    }
  }
  constexpr S text(const IV& a, std::size_t from) const {
    DV<Ch> v;
    for (std::size_t k = from; k < a.size(); ++k) v.push_back(Ch(a[k]));
    return S(v.data(), v.size());
  }
  // runs f; whether it raised what a stream raises
  template <class F> static constexpr void guarded(IV& r, F f) {
    std::size_t at = r.size();
    r.push_back(0);
    if (std::is_constant_evaluated()) { f(); return; }
    try { f(); } catch (const std::ios_base::failure&) { r[at] = 1; } catch (...) { r[at] = 2; }
  }
  constexpr void apply(int op, IV& a, IV& r) {
    int s = a[0], n = a.size() > 1 ? a[1] : 0;
    B& x = *b[s];
    switch (op) {
      case O_new: {
        drop(s);
        S t = text(a, 2);
        switch (n) {
          case 1: b[s] = i[s] = new I(t, ios::in); break;
          case 2: b[s] = i[s] = new I(t, ios::in | ios::ate); break;
          case 3: b[s] = io[s] = new IO(t); break;
          case 4: b[s] = io[s] = new IO(); io[s]->str(t); break;
          case 5: b[s] = i[s] = new I(); i[s]->str(t); break;
          case 6: b[s] = i[s] = new I(t, ios::out); break;
          case 7: b[s] = io[s] = new IO(t, ios::out); break;      // nothing to be read from it
          case 8: b[s] = io[s] = new IO(t, ios::in); break;
          case 9: b[s] = io[s] = new IO(t, ios::in | ios::out | ios::app); break;
          default: b[s] = i[s] = new I(t);
        }
        for (auto& z : t) z = Ch('#');      // the stream has its own
        break;
      }
      case O_str: { S t = text(a, 1); if (i[s]) i[s]->str(t); else io[s]->str(t); for (auto& z : t) z = Ch('#'); break; }
      case O_get: {
        Ch ch = Ch(1); bool same = true;
        int before = -2;
        if (ch_probe(x, ch, r, same)) before = code(ch);
        r.push_back(same ? before : -3);
        break;
      }
      case O_read: {
        DV<Ch> v(std::size_t(n) + 2, Ch(35));
        guarded(r, [&] { B& y = x.read(v.data(), n); if (&y != &x) throw 1; });
        int g = int(x.gcount());
        for (int k = 0; k < g && k < n; ++k) r.push_back(code(v[std::size_t(k)]));
        for (int k = g; k < n + 2; ++k) if (v[std::size_t(k)] != Ch(35)) { r.push_back(-9); break; }
        break;
      }
      case O_unget: guarded(r, [&] { B& y = x.unget(); if (&y != &x) throw 1; }); break;
      case O_clear: guarded(r, [&] { if (n) x.clear(bits(n)); else x.clear(); }); break;
      case O_setstate: guarded(r, [&] { x.setstate(bits(n)); }); break;
      case O_exceptions: guarded(r, [&] { x.exceptions(bits(n)); }); break;
      case O_sgetc: r.push_back(code_of(x.rdbuf()->sgetc())); break;
      case O_sbumpc: r.push_back(code_of(x.rdbuf()->sbumpc())); break;
      case O_snextc: r.push_back(code_of(x.rdbuf()->snextc())); break;
      case O_sungetc: r.push_back(code_of(x.rdbuf()->sungetc())); break;
      case O_sgetn: {
        DV<Ch> v(std::size_t(n) + 2, Ch(35));
        int g = int(x.rdbuf()->sgetn(v.data(), n));
        r.push_back(g);
        for (int k = 0; k < g && k < n; ++k) r.push_back(code(v[std::size_t(k)]));
        for (int k = g < 0 ? 0 : g; k < n + 2; ++k) if (v[std::size_t(k)] != Ch(35)) { r.push_back(-9); break; }
        break;
      }
      case O_pubsync: r.push_back(x.rdbuf()->pubsync()); break;
      case O_text: { const S t = i[s] ? std::as_const(*i[s]).str() : std::as_const(*io[s]).str(); for (Ch z : t) r.push_back(code(z)); break; }
      case O_drain: { IV got; guarded(r, [&] { Ch ch; for (int k = 0; k < WALK_CAP && x.get(ch); ++k) got.push_back(code(ch)); }); for (int z : got) r.push_back(z); break; }
    }
  }
  // get into ch; whether a character came (ch is left alone otherwise)
  static constexpr bool ch_probe(B& x, Ch& ch, IV& r, bool& same) {
    guarded(r, [&] { B& y = x.get(ch); if (&y != &x) throw 1; });
    if (x.gcount() == 1) return true;
    same = ch == Ch(1);
    return false;
  }
  int len[K] = {};
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), k = g.below(100);
    a = {s};
    auto fill = [&] {
      int n = g.chance(1, 6) ? 0 : g.below(g.chance(1, 10) ? 3 * pf.maxlen + 1 : pf.maxlen + 1);
      if (pf.ct && n > 12) n = 12;
      int kind = g.below(4);
      for (int j = 0; j < n; ++j) a.push_back(kind == 0 ? g.below(256) : kind == 1 ? (g.chance(1, 2) ? 255 : 0) : kind == 2 ? 32 + g.below(2) : g.in(97, 122));
      len[s] = n;
    };
    if (k < 7) { op = O_new; a.push_back(g.below(10)); fill(); }
    else if (k < 12) { op = O_str; fill(); }
    else if (k < 32) op = O_get;
    else if (k < 44) op = O_unget;
    else if (k < 56) { op = g.chance(2, 3) ? O_read : O_sgetn; a.push_back(g.below(g.chance(1, 6) ? len[s] + 4 : 5)); }
    else if (k < 68) { op = O_clear; a.push_back(g.chance(4, 5) || (pf.ct && g.chance(1, 2)) ? 0 : g.below(8)); }
    else if (k < 72) { op = O_setstate; a.push_back(g.below(8)); }
    else if (k < 77 && !pf.ct) { op = O_exceptions; a.push_back(g.chance(1, 2) ? 0 : g.below(8)); }
    else if (k < 81) op = O_sgetc;
    else if (k < 87) op = O_sbumpc;
    else if (k < 91) op = O_snextc;
    else if (k < 96) op = O_sungetc;
    else if (k < 97) op = g.chance(1, 3) ? O_pubsync : O_text;
    else op = O_drain;
    return true;
  }
};
