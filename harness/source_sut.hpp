#pragma once
#include <cest/streambuf.hpp>
#include "common.hpp"
#include <cest/sstream.hpp>
#include <ios>

struct Gone {};      // what the buffer throws

// A client's stream buffer: brings its text in blocks, as spec/Source.tla says.
template <class Ch, class Tr> struct Src final : cest::basic_streambuf<Ch, Tr> {
  using base = cest::basic_streambuf<Ch, Tr>;
  using T = typename base::traits_type;
  using int_type = typename base::int_type;
  DV<Ch> txt;
  Ch* block;           // a copy of txt[lo .. hi): the characters come from here
  int lo = 0, hi = 0, bs, keep, fuse = -1;
  bool back, bfuse = false;
  constexpr Src(DV<Ch> t, int b, int k, bool bk) : txt(t), block(new Ch[std::size_t(b + k + 1)]()), bs(b), keep(k), back(bk) { if (bs) this->setg(block, block, block); }
  constexpr Src(const Src& o) : base(o), txt(o.txt), block(new Ch[std::size_t(o.b_size())]()), lo(o.lo), hi(o.hi), bs(o.bs), keep(o.keep), fuse(o.fuse), back(o.back), bfuse(o.bfuse) {
    for (int i = 0; i < b_size(); ++i) block[i] = o.block[i];
    if (bs) this->setg(block, block + (this->gptr() - this->eback()), block + (this->egptr() - this->eback()));
  }
  constexpr ~Src() { delete[] block; }
  constexpr int pos() const { return lo + int(this->gptr() - this->eback()); }
  constexpr void load(int p) {
    lo = p - (keep < p ? keep : p);
    hi = p + bs < int(txt.size()) ? p + bs : int(txt.size());
    for (int i = 0; i < b_size(); ++i) block[i] = Ch(35);
    for (int i = lo; i < hi; ++i) block[i - lo] = txt[std::size_t(i)];
    this->setg(block, block + (p - lo), block + (hi - lo));
  }
  constexpr int b_size() const { return bs + keep + 1; }
  int answer = 0;      // of the next sync: 1 fails, 2 throws
  constexpr int sync() override {
    if (answer == 2) throw Gone{};
    return answer ? -1 : pos();
  }
  constexpr int_type underflow() override {
    int p = pos();
    if (fuse >= 0 && p >= fuse) { fuse = -1; throw Gone{}; }
    if (this->gptr() != this->egptr()) return T::to_int_type(*this->gptr());
    if (p >= int(txt.size())) return T::eof();
    if (bs == 0) return T::to_int_type(txt[std::size_t(p)]);
    load(p);
    return T::to_int_type(*this->gptr());
  }
  constexpr int_type uflow() override {
    if (bs) return base::uflow();
    int_type c = underflow();
    if (!T::eq_int_type(c, T::eof())) ++lo;
    return c;
  }
  constexpr int_type pbackfail(int_type = T::eof()) override {
    if (bfuse) { bfuse = false; throw Gone{}; }
    int p = pos();
    if (!back || p == 0) return T::eof();
    if (bs == 0) return T::to_int_type(txt[std::size_t(--lo)]);
    load(p - 1);
    return T::to_int_type(*this->gptr());
  }
};

template <class Ch, int K, class Tr = std::char_traits<Ch>> struct SourceSut : SutBase {
#define L(X) X(new) X(none) X(copy) X(init) X(peer) X(fuse) X(bfuse) X(get) X(read) X(unget) X(clear) X(setstate) X(exceptions) X(sgetc) X(sbumpc) X(snextc) X(sungetc) X(sgetn) X(pubsync) X(drain) X(flush)
  SUT_OPS(L)
#undef L
  using I = cest::basic_istream<Ch, Tr>;
  using ios = cest::ios_base;
  Src<Ch, Tr>* src[K] = {};
  I* in[K] = {};
  constexpr SourceSut() { for (int s = 0; s < K; ++s) in[s] = new I(nullptr); }
  SourceSut(const SourceSut&) = delete;
  constexpr void drop(int s) { delete in[s]; delete src[s]; in[s] = nullptr; src[s] = nullptr; }
  constexpr ~SourceSut() { for (int s = 0; s < K; ++s) drop(s); }
  static constexpr int code(Ch c) { return std::is_same_v<Ch, char> ? int(static_cast<unsigned char>(c)) : int(c); }
  static constexpr int code_of(typename I::int_type c) { return Tr::eq_int_type(c, Tr::eof()) ? -1 : int(c) - (std::is_same_v<Tr, OddTraits> ? 1000 : 0); }
  static constexpr int num(ios::iostate x) { return (x & ios::badbit ? 1 : 0) + (x & ios::eofbit ? 2 : 0) + (x & ios::failbit ? 4 : 0); }
  static constexpr ios::iostate bits(int n) {
    ios::iostate x = ios::goodbit;
    if (n & 1) x = x ^ ios::badbit;
    if (n & 2) x ^= ios::eofbit;
    if (n & 4) x |= ios::failbit;
    x &= ~~x;
    return x;
  }
  constexpr void observe(IV& obs) const {
    for (int s = 0; s < K; ++s) {
      const I& x = *in[s];
      obs.push_back(num(x.rdstate())); obs.push_back(x.good()); obs.push_back(x.eof()); obs.push_back(x.fail());
      obs.push_back(bool(x)); obs.push_back(!x); obs.push_back(num(x.exceptions())); obs.push_back(int(x.gcount()));
      obs.push_back(x.rdbuf() == src[s] ? src[s] ? src[s]->pos() : 0 : -9);
    }
  }
  template <class F> static constexpr void guarded(IV& r, F f) {
    std::size_t at = r.size();
    r.push_back(0);
    if (std::is_constant_evaluated()) { f(); return; }
    try { f(); } catch (const std::ios_base::failure&) { r[at] = 1; } catch (const Gone&) { r[at] = 2; } catch (...) { r[at] = 3; }
  }
  // characters and the untouched rest of what was read into
  static constexpr void got(IV& r, const DV<Ch>& v, int g, int n) {
    for (int k = 0; k < g && k < n; ++k) r.push_back(code(v[std::size_t(k)]));
    for (int k = g < 0 ? 0 : g; k < n + 2; ++k) if (v[std::size_t(k)] != Ch(35)) { r.push_back(-9); break; }
  }
  constexpr void apply(int op, IV& a, IV& r) {
    int s = a[0], n = a.size() > 1 ? a[1] : 0;
    I& x = *in[s];
    // what a call on the buffer itself gives: nothing but the exception, if there is one
    auto raw = [&](auto f) { IV z; guarded(r, [&] { f(z); }); if (r[0] == 0) for (int y : z) r.push_back(y); };
    switch (op) {
      case O_new: {
        drop(s);
        DV<Ch> t;
        for (std::size_t k = 4; k < a.size(); ++k) t.push_back(Ch(a[k]));
        src[s] = new Src<Ch, Tr>(t, n, a[2], a[3]);
        in[s] = new I(src[s]);
        break;
      }
      case O_none: drop(s); in[s] = new I(nullptr); break;
      case O_copy: {
        auto* y = new Src<Ch, Tr>(*src[s]);
        drop(s);
        src[s] = y;
        in[s] = new I(y);
        break;
      }
      case O_init: x.init(src[s]); break;
      case O_peer: {
        I y(src[s]);
        Ch ch = Ch(1);
        y.get(ch);
        r.push_back(num(y.rdstate())); r.push_back(y.gcount() == 1 ? code(ch) : ch == Ch(1) ? -2 : -3);
        break;
      }
      case O_fuse: src[s]->fuse = n; break;
      case O_bfuse: src[s]->bfuse = true; break;
      case O_get: {
        Ch ch = Ch(1);
        guarded(r, [&] { I& y = x.get(ch); if (&y != &x) throw 1; });
        r.push_back(x.gcount() == 1 ? code(ch) : ch == Ch(1) ? -2 : -3);
        break;
      }
      case O_read: {
        DV<Ch> v(std::size_t(n) + 2, Ch(35));
        guarded(r, [&] { I& y = x.read(v.data(), n); if (&y != &x) throw 1; });
        if (!(x.rdstate() & ios::badbit)) got(r, v, int(x.gcount()), n);
        break;
      }
      case O_unget: guarded(r, [&] { I& y = x.unget(); if (&y != &x) throw 1; }); break;
      case O_clear: guarded(r, [&] { if (n) x.clear(bits(n)); else x.clear(); }); break;
      case O_setstate: guarded(r, [&] { x.setstate(bits(n)); }); break;
      case O_exceptions: guarded(r, [&] { x.exceptions(bits(n)); }); break;
      case O_sgetc: raw([&](IV& z) { z.push_back(code_of(x.rdbuf()->sgetc())); }); break;
      case O_sbumpc: raw([&](IV& z) { z.push_back(code_of(x.rdbuf()->sbumpc())); }); break;
      case O_snextc: raw([&](IV& z) { z.push_back(code_of(x.rdbuf()->snextc())); }); break;
      case O_sungetc: raw([&](IV& z) { z.push_back(code_of(x.rdbuf()->sungetc())); }); break;
      case O_sgetn: raw([&](IV& z) {
        DV<Ch> v(std::size_t(n) + 2, Ch(35));
        int g = int(x.rdbuf()->sgetn(v.data(), n));
        z.push_back(g);
        got(z, v, g, n);
      }); break;
      case O_pubsync: raw([&](IV& z) { z.push_back(x.rdbuf()->pubsync()); }); break;
      case O_flush: {
        cest::basic_ostream<Ch, Tr> o(src[s]);
        if (src[s]) o.exceptions(bits(n));
        else guarded(r, [&] { o.exceptions(bits(n)); }), r.clear();
        if (src[s]) src[s]->answer = a[2];
        guarded(r, [&] { auto& y = o.flush(); if (&y != &o) throw 1; });
        if (src[s]) src[s]->answer = 0;
        r.push_back(num(o.rdstate())); r.push_back(o.good());
        break;
      }
      case O_drain: { IV z; guarded(r, [&] { Ch ch; for (int k = 0; k < WALK_CAP && x.get(ch); ++k) z.push_back(code(ch)); }); for (int c : z) r.push_back(c); break; }
    }
  }
  int len[K] = {};
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), k = g.below(100);
    a = {s};
    bool ct = pf.ct;
    if (k < 7 || (!src[s] && k < 60)) {
      op = O_new;
      a.push_back(g.chance(1, 3) ? g.below(4) : g.in(1, 12)); a.push_back(g.below(4)); a.push_back(g.below(2));
      int n = g.chance(1, 8) ? 0 : g.below(g.chance(1, 10) ? 3 * pf.maxlen + 1 : pf.maxlen + 1);
      if (ct && n > 12) n = 12;
      int kind = g.below(3);
      for (int j = 0; j < n; ++j) a.push_back(kind == 0 ? g.below(256) : kind == 1 ? (g.chance(1, 2) ? 255 : 0) : g.in(97, 122));
      len[s] = n;
      return true;
    }
    if (k == 7) { op = O_none; return true; }
    if (k == 8 || k == 9) { op = O_flush; a.push_back(ct ? 0 : g.below(8)); a.push_back(ct ? g.below(2) : g.below(3)); return true; }
    if (k == 10) { op = O_peer; return true; }
    if (k == 11 && g.chance(1, 2)) { op = O_init; return true; }
    if (k < 34) op = O_get;
    else if (k < 44) op = O_unget;
    else if (k < 56) { op = O_read; a.push_back(g.below(g.chance(1, 6) ? len[s] + 4 : 6)); }
    else if (k < 67) { op = O_clear; a.push_back(g.chance(4, 5) || (ct && g.chance(1, 2)) ? 0 : g.below(8)); }
    else if (k < 69) { op = O_setstate; a.push_back(g.below(8)); }
    else if (k < 73 && !ct) { op = O_exceptions; a.push_back(g.chance(1, 2) ? 0 : g.below(8)); }
    else if (k < 74) op = O_drain;
    else if (!src[s]) { op = g.chance(1, 3) ? O_get : O_unget; }
    else if (k < 77 && !ct) { op = O_fuse; a.push_back(src[s]->pos() + g.below(6)); }
    else if (k < 79 && !ct) op = O_bfuse;
    else if (k < 80) op = O_copy;
    else if (k < 82) op = O_sgetc;
    else if (k < 85) op = O_sbumpc;
    else if (k < 88) op = O_snextc;
    else if (k < 93) op = O_sungetc;
    else if (k < 98) { op = O_sgetn; a.push_back(g.below(g.chance(1, 6) ? len[s] + 4 : 6)); }
    else op = O_pubsync;
    return true;
  }
};
