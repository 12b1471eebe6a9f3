// cest::cout, cerr, clog, printf and fprintf bound to spec/Output.tla
#include "heap.hpp"
#include "runtime_main.hpp"
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
#include <cest/string.hpp>
#include <cest/memory.hpp>
#include <sys/wait.h>
#include <sys/stat.h>

struct OutputSut : SutBase {
#define L(X) X(str) X(lit) X(ulit) X(chr) X(num) X(base) X(endl) X(flush) X(print) X(look) X(shr) X(peek) X(big) X(ptr)
  SUT_OPS(L)
#undef L
  int file[2], saved[2]; long seen[2] = {0, 0};
  cest::basic_stringbuf<char> own_buf;
  cest::ostream own{&own_buf};
  static void all_out() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); std::fflush(nullptr); }
  static int scratch() { FILE* f = std::tmpfile(); if (!f) _exit(3); int d = ::dup(fileno(f)); std::fclose(f); return d; }
  OutputSut() {
    std::cout << std::dec; std::cerr << std::dec; std::clog << std::dec;
    all_out();
    for (int k = 0; k < 2; ++k) {
      file[k] = scratch();
      saved[k] = ::dup(k + 1);
      ::dup2(file[k], k + 1);
    }
    drv::report_fd = saved[0];
  }
  OutputSut(const OutputSut&) = delete;
  ~OutputSut() { back(); }
  void back() {
    all_out();
    drv::report_fd = 1;
    for (int k = 0; k < 2; ++k) { ::dup2(saved[k], k + 1); ::close(saved[k]); ::close(file[k]); }
  }
  void observe(IV& obs) const { obs.push_back(0); }
  static void arrived(int fd, long& from, IV& r) {
    struct stat st; ::fstat(fd, &st);
    long n = st.st_size - from;
    std::vector<unsigned char> b(static_cast<size_t>(n > 0 ? n : 0));
    if (n > 0 && ::pread(fd, b.data(), b.size(), from) != n) _exit(3);
    r.push_back(int(n));
    for (auto x : b) r.push_back(int(x));
    from = st.st_size;
  }
  cest::ostream& os(int s) { return s == 0 ? cest::cout : s == 1 ? cest::cerr : s == 2 ? cest::clog : own; }
  static void told(int fd, long& from, IV& r) {
    IV all, q; arrived(fd, from, all);
    for (size_t k = 1; k < all.size(); ++k)
      if (!q.empty() && q[q.size() - 2] == all[k]) ++q.back(); else { q.push_back(all[k]); q.push_back(1); }
    r.push_back(int(q.size() / 2)); for (int x : q) r.push_back(x);
  }
  void big(const IV& a, IV& r) {
    std::string t;
    for (size_t k = 2; k + 1 < a.size(); k += 2) t.append(size_t(a[k + 1]), char(a[k]));
    cest::ostream& o = os(a[0]);
    int n = 0;
    switch (a[1]) {
      case 0: o << cest::string(t.data(), t.size()); break;
      case 1: o << t.c_str(); break;
      case 2: n = a[0] == 0 ? cest::printf("%s", t.c_str()) : cest::fprintf(&o, "%s", t.c_str()); break;
      case 3: n = cest::fprintf(&o, "%.*s%s", int(t.size() / 2), t.c_str(), t.c_str() + t.size() / 2); break;
      case 4: for (char c : t) o << c; break;
      case 5: { cest::string z; for (char c : t) z.push_back(c); o << z; break; }
      case 6: n = a[0] == 0 && a[3] % 2 ? cest::printf("%*d", a[3], 7) : cest::fprintf(&o, "%*d", a[3], 7); break;
      case 7: n = a[0] == 0 && a[3] % 2 ? cest::printf("%c%*d", 0, a[3], 7) : cest::fprintf(&o, "%c%*d", 0, a[3], 7); break;
    }
    r.push_back(n);
    all_out();
    for (int k = 0; k < 2; ++k) told(file[k], seen[k], r);
  }
  bool clean = true, looks = true;
  static std::string bytes(const IV& a, size_t from) { std::string t; for (size_t k = from; k < a.size(); ++k) t.push_back(char(a[k])); return t; }
  template <class... X> int print(int s, const char* f, X... x) {
    if (s == -1) return cest::printf(f, x...);
    // also through the names C has for them
    cest::ostream* o = s == 0 ? cest::stdout : s == 1 ? cest::stderr : &os(s);
    return cest::fprintf(o, f, x...);
  }
  void apply(int op, IV& a, IV& r) {
    int s = a[0];
    cest::ostream& o = os(s);
    cest::ostream* b = &o;
    clean = op == O_look || op == O_big;
    heap::live = 0; heap::on = true;
    switch (op) {
      case O_big: big(a, r); break;
      case O_peek: for (int k = 0; k < 2; ++k) arrived(file[k], seen[k], r); break;
      case O_str: { std::string t = bytes(a, 1); const cest::string z(t.data(), t.size()); b = &(o << z); break; }
      case O_lit: { std::string t = bytes(a, 1); b = &(o << t.c_str()); break; }
      case O_ulit: {
        std::string t = bytes(a, 1);
        if (t.size() % 2) b = &(o << reinterpret_cast<const unsigned char*>(t.c_str()));
        else b = &(o << reinterpret_cast<const signed char*>(t.c_str()));
        break;
      }
      case O_chr:
        switch (a[2]) {
          case 0: b = &(o << char(a[1])); break;
          case 1: b = &(o << static_cast<unsigned char>(a[1])); break;
          case 2: b = &(o << static_cast<signed char>(a[1])); break;
        }
        break;
      case O_num: {
        unsigned long m = 0;
        for (size_t k = 3; k < a.size(); ++k) m = m << 16 | unsigned(a[k]);
        bool neg = a[2];
        switch (a[1]) {
          case 0: b = &(o << int(neg ? 0 - m : m)); break;
          case 1: b = &(o << unsigned(m)); break;
          case 2: b = &(o << long(neg ? 0 - m : m)); break;
          case 3: b = &(o << short(neg ? 0 - m : m)); break;
          case 4: b = &(o << static_cast<unsigned short>(m)); break;
          case 5: b = &(o << m); break;
          case 6: b = &(o << static_cast<long long>(neg ? 0 - m : m)); break;
          case 7: b = &(o << static_cast<unsigned long long>(m)); break;
          case 8: b = &(o << bool(m)); break;
        }
        break;
      }
      case O_base: b = a[1] == 16 ? &(o << cest::hex) : a[1] == 8 ? &(o << cest::oct) : &(o << cest::dec); break;
      case O_endl: b = &(o << cest::endl); break;
      case O_flush: b = &o.flush(); break;
      case O_print: {
        unsigned m = unsigned(a[3]) << 16 | unsigned(a[4]);
        int x = int(a[2] ? 0 - m : m);
        std::string q = bytes(a, 5);
        int n = -1;
        switch (a[1]) {
          case 0: n = s == -1 ? cest::printf("50%%\n") : cest::fprintf(s == 0 ? cest::stdout : s == 1 ? cest::stderr : &o, "50%%\n"); break;
          case 1: n = print(s, "(%d %s)", x, q.c_str()); break;
          case 2: n = print(s, "%x|%8d", x, x); break;
          case 3: n = print(s, "%c%c%s", int(m & 255), 0, q.c_str()); break;
          case 4: n = print(s, "%s", q.c_str()); break;
          case 5: n = print(s, "%s", ""); break;
          case 6: { static const wchar_t w[] = {0x20ac, 0}; n = print(s, "%ls", w) < 0 ? -1 : 0; break; }   // not to be had in bytes
        }
        r.push_back(n);
        break;
      }
      case O_ptr: {
        std::uintptr_t v = 0;
        for (size_t k = 2; k < a.size(); ++k) v = v << 16 | unsigned(a[k]);
        struct Thing {};
        switch (a[1]) {
          case 0: b = &(o << reinterpret_cast<const void*>(v)); break;
          case 1: { cest::unique_ptr<int> u(reinterpret_cast<int*>(v)); b = &(o << u); u.release(); break; }
          case 2: { const cest::shared_ptr<long> none, q(none, reinterpret_cast<long*>(v)); b = &(o << q); break; }
          case 3: { cest::unique_ptr<const Thing> u(reinterpret_cast<Thing*>(v)); b = &(o << u); u.release(); break; }
        }
        break;
      }
      case O_shr: {   // a shared pointer prints what its pointer prints
        std::string t = bytes(a, 1);
        char* c = new char[t.size() + 1];
        for (size_t k = 0; k <= t.size(); ++k) c[k] = t.c_str()[k];
        const cest::shared_ptr<char[]> q(c);
        if (t.size() % 2) { b = &(o << q); break; }
        cest::unique_ptr<char> u(c);
        b = &(o << u);
        u.release();
        break;
      }
      case O_look: all_out(); for (int k = 0; k < 2; ++k) arrived(file[k], seen[k], r); break;
    }
    heap::on = false;
    if (b != &o) r.push_back(-1);
    if (heap::live) r.push_back(-2);     // memory left behind
  }
  void text(Rng& g, IV& a) {
    int n = g.chance(1, 12) ? g.below(300) : g.below(9), kind = g.below(3);
    for (int k = 0; k < n; ++k) a.push_back(kind == 0 ? g.below(256) : kind == 1 ? (g.chance(1, 3) ? 0 : 37) : g.in(97, 122));
  }
  bool gen(Rng& g, int& op, IV& a) {
    const int ss[] = {0, 0, 0, 1, 1, 1, 2, 2, 3};
    int s = ss[g.below(9)], k = g.below(100);
    a = {s};
    if (clean && looks && g.chance(1, 3)) {
      op = O_big; a = {g.below(3), g.below(8)};
      int top = 1 << g.in(3, 17), room = g.in(top / 2, top), m = g.in(1, 6), was = -1;
      if (a[1] == 4 && room > 5000) room = 5000;
      if (a[1] >= 6) { a.push_back(32); a.push_back(room < 2 ? 2 : room); return true; }
      for (int j = 0; j < m; ++j) {
        int v = a[1] == 0 || a[1] == 5 || a[1] == 4 ? g.below(256) : g.in(1, 255), n = j == m - 1 ? room : g.below(room + 1);
        if (v == was || n == 0) continue;
        was = v; room -= n; a.push_back(v); a.push_back(n);
      }
      return true;
    }
    if (looks && g.chance(1, 14)) { op = O_peek; a = {0}; return true; }
    auto mag = [&](int limbs, bool neg, int top) {   // at most the type's extreme
      a.push_back(neg);
      int kind = g.below(4);
      bool small = kind == 0;
      for (int j = 0; j < limbs; ++j) {
        int x = small ? (j == limbs - 1 ? g.below(20) : 0) : kind == 1 ? g.below(65536) : kind == 2 ? (j < limbs - 1 && g.chance(1, 2) ? 0 : g.below(65536)) : 65535;
        if (j == 0) x &= top;
        a.push_back(x);
      }
      if (neg && kind == 3) { a[a.size() - size_t(limbs)] = top + 1; for (int j = 1; j < limbs; ++j) a[a.size() - size_t(j)] = 0; }
      // there is no negative zero
      bool zero = true;
      for (int j = 0; j < limbs; ++j) zero = zero && !a[a.size() - 1 - size_t(j)];
      if (zero) a[a.size() - 1 - size_t(limbs)] = 0;
    };
    if (k < 20) { op = O_str; text(g, a); }
    else if (k < 30) { op = g.chance(1, 4) ? O_shr : g.chance(1, 4) ? O_ulit : O_lit; text(g, a); }
    else if (k < 38) { op = O_chr; a.push_back(g.below(256)); a.push_back(g.chance(1, 2) ? 0 : g.in(1, 2)); }
    else if (k < 62) {
      op = O_num;
      const int limbs[] = {2, 2, 4, 1, 1, 4, 4, 4, 1};
      int ty = g.below(9);
      a.push_back(ty);
      if (ty == 8) { a.push_back(0); a.push_back(g.below(2)); }
      else if (ty == 1 || ty == 4 || ty == 5 || ty == 7) mag(limbs[ty], false, 65535);
      else mag(limbs[ty], g.chance(1, 2), 32767);
    }
    else if (k < 70) { op = O_base; const int bs[] = {10, 16, 8}; a.push_back(bs[g.below(3)]); }
    else if (k < 72) {
      op = O_ptr; a.push_back(g.below(4));
      for (int j = 0, z = g.below(5); j < 4; ++j) a.push_back(j < z ? 0 : g.below(65536));
    }
    else if (k < 75) op = O_endl;
    else if (k < 77) op = O_flush;
    else if (k < 92) { op = O_print; if (g.chance(1, 3)) a[0] = -1; a.push_back(g.below(7)); mag(2, g.chance(1, 2), 32767); text(g, a); }
    else { op = O_look; a = {0}; }
    return true;
  }
};

// what was written before the end of the program arrives without being asked for
int run_exit(const char* file, std::uint64_t seed, int runs, int len) {
  Rng rng{seed};
  drv::out.open(file);
  for (int r = 0; r < runs; ++r) {
    int f[2] = {OutputSut::scratch(), OutputSut::scratch()};
    std::uint64_t mine = rng.next();
    drv::out.flush();
    std::fflush(nullptr);
    pid_t p = ::fork();
    if (p == 0) {
      alarm(30);
      drv::Traced<OutputSut> t;
      drv::tracing = true;
      t.fresh();
      t.sut->looks = false;
      ::dup2(f[0], 1); ::dup2(f[1], 2);
      Rng g{mine};
      for (int k = 0; k < len; ++k) { int op = 0; IV a; t.sut->gen(g, op, a); if (op == OutputSut::O_look) continue; t.step(op, a); }
      drv::out.flush();
      std::exit(0);
    }
    int st = 0;
    ::waitpid(p, &st, 0);
    if (st != 0) { IV none; drv::event("crash:exit", none, none, none); drv::out.flush(); return 98; }
    IV ret, a{0}, o{0}; long from[2] = {0, 0};
    for (int k = 0; k < 2; ++k) { OutputSut::arrived(f[k], from[k], ret); ::close(f[k]); }
    drv::event("look", a, ret, o);
  }
  drv::out.flush();
  std::printf("STATS {\"events\":%d,\"runs\":%d}\n", runs * len, runs);
  return 0;
}

int main(int argc, char** argv) {
  if (argc == 7 && str_eq(argv[1], "exit")) { drv::install(); return run_exit(argv[3], std::strtoull(argv[4], nullptr, 10), std::atoi(argv[5]), std::atoi(argv[6])); }
  return drv::dispatch(argc, argv, {{"all", drv::main_for<OutputSut>}});
}
