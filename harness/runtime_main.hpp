// Run-time driver: graph replay, random traces, replay of one history.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#define HAVE_ASAN 1
#endif
#endif

// ---- output that survives a crash ------------------------------------------
namespace drv {

struct Out {
  int fd = -1;
  char buf[1 << 16];
  size_t n = 0;
  void open(const char* path) {
    fd = ::open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) { std::perror(path); _exit(3); }
  }
  void flush() {
    size_t k = 0;
    while (fd >= 0 && k < n) {
      ssize_t w = ::write(fd, buf + k, n - k);
      if (w <= 0) break;
      k += size_t(w);
    }
    n = 0;
  }
  void put(const char* s, size_t len) {
    while (len) {
      if (n == sizeof buf) flush();
      size_t k = std::min(len, sizeof buf - n);
      std::memcpy(buf + n, s, k);
      n += k; s += k; len -= k;
    }
  }
  void put(const char* s) { put(s, std::strlen(s)); }
  void num(long v) { char t[32]; int k = std::snprintf(t, sizeof t, "%ld", v); put(t, size_t(k)); }
  void arr(const IV& v) {
    put("[");
    for (size_t i = 0; i < v.size(); ++i) { if (i) put(","); num(v[i]); }
    put("]");
  }
};

inline Out out;
inline const char* cur_op = nullptr;   // operation in flight (for crash reports)
inline const IV* cur_args = nullptr;
inline bool tracing = false;
inline int report_fd = 1;              // where reports go if the SUT owns standard output
inline std::vector<std::pair<const char*, IV>>* path = nullptr;  // graph mode

inline void event(const char* op, const IV& a, const IV& r, const IV& s) {
  out.put("{\"op\":\""); out.put(op); out.put("\",\"a\":"); out.arr(a);
  out.put(",\"r\":"); out.arr(r); out.put(",\"s\":"); out.arr(s); out.put("}\n");
}

inline void dump_path(Out& o) {
  o.put("[");
  bool first = true;
  for (auto& p : *path) {
    if (!first) o.put(",");
    first = false;
    o.put("[\""); o.put(p.first); o.put("\""); for (int x : p.second) { o.put(","); o.num(x); } o.put("]");
  }
  o.put("]");
}

inline void (*also_on_death)() = nullptr;
inline void on_death(const char* what) {
  static bool once = false;
  if (once) return;
  once = true;
  if (tracing) {
    if (cur_op) {
      IV none;
      // the call did not return: logged as an event no specification has
      out.put("{\"op\":\""); out.put(what); out.put(":"); out.put(cur_op); out.put("\",\"a\":");
      out.arr(cur_args ? *cur_args : none); out.put(",\"r\":[],\"s\":[]}\n");
    }
    out.flush();
    if (also_on_death) also_on_death();
  } else if (path) {
    Out o2; o2.fd = report_fd;
    o2.put("DIVERGE {\"what\":\""); o2.put(what); o2.put("\",\"path\":"); dump_path(o2); o2.put("}\n");
    o2.flush();
  }
}

inline void death_cb() { on_death("crash"); }
inline void on_signal(int sig) { on_death(sig == SIGALRM ? "hang" : "crash"); _exit(98); }
inline void on_terminate() { on_death("terminate"); _exit(98); }

inline void install() {
#ifdef HAVE_ASAN
  __sanitizer_set_death_callback(death_cb);
#else
  for (int s : {SIGSEGV, SIGBUS, SIGFPE}) std::signal(s, on_signal);
#endif
  for (int s : {SIGILL, SIGTRAP, SIGABRT}) std::signal(s, on_signal);   // asan leaves these alone
  std::signal(SIGALRM, on_signal);
  std::set_terminate(on_terminate);
}

// ---- graph -----------------------------------------------------------------
// FILE format (produced by lib/vlib.py from TLC's output):
//   N <nodes>
//   S <k> <obs...>                               one line per node, in order
//   E <src> <dst> <op> <na> <args...> <nr> <ret...>
struct Edge { int dst; IV ret; };
struct Group { int op; IV args; std::vector<Edge> alt; };
struct Graph {
  std::vector<IV> obs;
  std::vector<std::vector<Group>> out;
  std::vector<int> par_node, par_group, depth;   // BFS tree
};

template <class Sut> int op_code(const char* name) {
  for (int i = 0; i < Sut::NOPS; ++i) if (str_eq(Sut::names[i], name)) return i;
  std::fprintf(stderr, "driver has no operation '%s'\n", name);
  _exit(3);
}

template <class Sut> Graph load(const char* file) {
  FILE* f = std::fopen(file, "r");
  if (!f) { std::perror(file); _exit(3); }
  Graph g; char tag[8], name[64]; int n = 0, src, dst, k;
  auto rd = [&](int cnt, IV& v) { v.resize(size_t(cnt)); for (int i = 0; i < cnt; ++i) if (std::fscanf(f, "%d", &v[size_t(i)]) != 1) _exit(3); };
  while (std::fscanf(f, "%7s", tag) == 1) {
    if (tag[0] == 'N') { if (std::fscanf(f, "%d", &n) != 1) _exit(3); g.out.resize(size_t(n)); }
    else if (tag[0] == 'S') { IV v; if (std::fscanf(f, "%d", &k) != 1) _exit(3); rd(k, v); g.obs.push_back(v); }
    else if (tag[0] == 'E') {
      IV a, r;
      if (std::fscanf(f, "%d %d %63s %d", &src, &dst, name, &k) != 4) _exit(3);
      rd(k, a);
      if (std::fscanf(f, "%d", &k) != 1) _exit(3);
      rd(k, r);
      int code = op_code<Sut>(name);
      auto& gs = g.out[size_t(src)];
      Group* hit = nullptr;
      if (!gs.empty() && gs.back().op == code && gs.back().args == a) hit = &gs.back();
      if (!hit) for (auto& x : gs) if (x.op == code && x.args == a) { hit = &x; break; }
      if (!hit) { gs.push_back({code, a, {}}); hit = &gs.back(); }
      hit->alt.push_back({dst, r});
    }
  }
  std::fclose(f);
  g.par_node.assign(size_t(n), -1); g.par_group.assign(size_t(n), -1); g.depth.assign(size_t(n), -1);
  std::vector<int> q{0};
  g.depth[0] = 0;
  for (size_t h = 0; h < q.size(); ++h) {
    int u = q[h];
    for (size_t i = 0; i < g.out[size_t(u)].size(); ++i)
      for (auto& e : g.out[size_t(u)][i].alt)
        if (g.depth[size_t(e.dst)] < 0) {
          g.depth[size_t(e.dst)] = g.depth[size_t(u)] + 1;
          g.par_node[size_t(e.dst)] = u; g.par_group[size_t(e.dst)] = int(i);
          q.push_back(e.dst);
        }
  }
  return g;
}

struct Stats { long steps = 0, checks = 0, runs = 0, covered = 0, groups = 0, skipped = 0, dfs_depth = 0, dfs_paths = 0; };

template <class Sut> struct Walker {
  Graph& g; Stats st; std::vector<std::pair<const char*, IV>> hist;
  std::vector<std::vector<char>> seen;
  Sut* sut = nullptr; alignas(Sut) unsigned char mem[sizeof(Sut)];
  IV ret, obs;
  explicit Walker(Graph& gr) : g(gr) {
    path = &hist;
    seen.resize(g.out.size());
    for (size_t i = 0; i < g.out.size(); ++i) { seen[i].assign(g.out[i].size(), 0); st.groups += long(g.out[i].size()); }
  }
  void fresh() {
    if (sut) { hist.push_back({"(destroy)", {}}); sut->~Sut(); }
    hist.clear();
    sut = new (mem) Sut(); ++st.runs;
    alarm(20);
  }
  void check_start() {
    obs.clear(); sut->observe(obs);
    if (obs != g.obs[0]) fail(nullptr, -1);
  }
  [[noreturn]] void fail(const Group* gr, int) {
    Out o; o.fd = report_fd;
    o.put("DIVERGE {\"what\":\"mismatch\",\"path\":"); dump_path(o);
    o.put(",\"ret\":"); o.arr(ret); o.put(",\"obs\":"); o.arr(obs); o.put(",\"allowed\":[");
    if (gr) for (size_t i = 0; i < gr->alt.size(); ++i) {
      if (i) o.put(",");
      o.put("{\"ret\":"); o.arr(gr->alt[i].ret); o.put(",\"obs\":"); o.arr(g.obs[size_t(gr->alt[i].dst)]); o.put("}");
    }
    o.put("]}\n"); o.flush();
    _exit(10);
  }
  int step(int u, int gi) {
    Group& gr = g.out[size_t(u)][size_t(gi)];
    hist.push_back({Sut::names[gr.op], gr.args});
    ret.clear(); obs.clear();
    IV args = gr.args;
    sut->apply(gr.op, args, ret);
    sut->observe(obs);
    ++st.steps;
    for (auto& e : gr.alt)
      if (e.ret == ret && g.obs[size_t(e.dst)] == obs) { 
        if (!seen[size_t(u)][size_t(gi)]) { seen[size_t(u)][size_t(gi)] = 1; ++st.covered; }
        return e.dst;
      }
    fail(&gr, u);
  }
  bool go(int target) {   // along the BFS tree; false if the code legally went elsewhere
    std::vector<std::pair<int, int>> p;
    for (int u = target; u != 0; u = g.par_node[size_t(u)]) p.push_back({g.par_node[size_t(u)], g.par_group[size_t(u)]});
    int at = 0;
    for (size_t i = p.size(); i-- > 0;) {
      if (at != p[i].first) return false;
      at = step(at, p[i].second);
    }
    return at == target;
  }
  void cover(double deadline, std::chrono::steady_clock::time_point t0) {
    fresh(); check_start();
    for (size_t u = 0; u < g.out.size(); ++u)
      for (size_t i = 0; i < g.out[u].size(); ++i) {
        if (seen[u][i]) continue;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) return;
        fresh();
        if (!go(int(u))) { ++st.skipped; continue; }
        int at = step(int(u), int(i));
        // keep going through uncovered edges while there are any
        for (int more = 0; more < 64; ++more) {
          int pick = -1;
          for (size_t j = 0; j < g.out[size_t(at)].size(); ++j) if (!seen[size_t(at)][j]) { pick = int(j); break; }
          if (pick < 0) break;
          at = step(at, pick);
        }
      }
  }
  void random(Rng& rng, double deadline, std::chrono::steady_clock::time_point t0, int len) {
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < deadline) {
      fresh();
      int at = 0;
      for (int k = 0; k < len && !g.out[size_t(at)].empty(); ++k) at = step(at, rng.below(int(g.out[size_t(at)].size())));
    }
  }
  // all operation sequences up to the largest depth that fits in the budget
  bool dfs_run(std::vector<std::pair<int,int>>& p, int at, int d, double deadline, std::chrono::steady_clock::time_point t0) {
    if (d == 0) { ++st.dfs_paths; return true; }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) return false;
    for (size_t i = 0; i < g.out[size_t(at)].size(); ++i) {
      fresh();
      int v = 0; bool same = true;
      for (auto& q : p) { if (v != q.first) { same = false; break; } v = step(v, q.second); }
      if (!same || v != at) continue;
      int nx = step(at, int(i));
      p.push_back({at, int(i)});
      bool ok = dfs_run(p, nx, d - 1, deadline, t0);
      p.pop_back();
      if (!ok) return false;
    }
    return true;
  }
  void finish() { if (sut) { hist.push_back({"(destroy)", {}}); sut->~Sut(); sut = nullptr; } }
};

template <class Sut> int run_graph(const char* file, std::uint64_t seed, double secs) {
  Graph g = load<Sut>(file);
  Walker<Sut> w(g);
  auto t0 = std::chrono::steady_clock::now();
  w.cover(secs * 0.5, t0);
  for (int d = 1; d <= 12; ++d) {
    std::vector<std::pair<int,int>> p;
    if (!w.dfs_run(p, 0, d, secs * 0.75, t0)) break;
    w.st.dfs_depth = d;
  }
  Rng rng{seed};
  w.random(rng, secs, t0, 120);
  w.finish();
  std::printf("STATS {\"nodes\":%zu,\"edges\":%ld,\"covered\":%ld,\"skipped\":%ld,\"runs\":%ld,\"steps\":%ld,\"dfs_depth\":%ld,\"dfs_paths\":%ld}\n",
              g.obs.size(), w.st.groups, w.st.covered, w.st.skipped, w.st.runs, w.st.steps, w.st.dfs_depth, w.st.dfs_paths);
  return 0;
}

template <class Sut> struct Traced {
  alignas(Sut) unsigned char mem[sizeof(Sut)];
  Sut* sut = nullptr;
  IV ret, obs, none;
  void fresh() {
    kill();
    sut = new (mem) Sut();
    obs.clear(); sut->observe(obs);
    event("reset", none, none, obs);
  }
  void kill() { if (sut) { cur_op = "(destroy)"; cur_args = &none; sut->~Sut(); sut = nullptr; cur_op = nullptr; } }
  void step(int op, const IV& a, bool look = true) {
    cur_op = Sut::names[op]; cur_args = &a;
    ret.clear(); obs.clear();
    IV b = a;
    sut->apply(op, b, ret);
    if (look) sut->observe(obs); else obs.push_back(-999999);   // not looked at
    cur_op = nullptr;
    event(Sut::names[op], b, ret, obs);   // apply may extend the arguments by what the call chose
  }
};

// operations that throw most of an object's content away: rare in long histories
inline bool drastic(const char* n) {
  for (const char* p : {"make", "clear", "take", "mtake", "resize", "erase_range", "erase_tail", "assign", "copy", "move_new", "massign", "fresh", "swap"}) {
    const char* q = n; const char* r = p;
    while (*r && *q == *r) { ++q; ++r; }
    if (!*r) return true;
  }
  return false;
}

template <class Sut> int run_long(const char* file, std::uint64_t seed, int runs, int len) {
  out.open(file); tracing = true;
  Rng rng{seed};
  Traced<Sut> t;
  long n = 0;
  for (int r = 0; r < runs; ++r) {
    t.fresh();
    t.sut->profile(rng, r);
    t.sut->profile_long(len);
    for (int k = 0; k < len; ++k) {
      alarm(60);
      if (k == len * 2 / 3) t.sut->bias = 0;
      int op = 0; IV a;
      if (!t.sut->gen(rng, op, a)) break;
      if (drastic(Sut::names[op]) && !rng.chance(1, 12)) continue;
      if (str_eq(Sut::names[op], "erase") && a.size() == 3 && a[2] - a[1] > 3) a[2] = a[1] + 3;
      bool look = drastic(Sut::names[op]) || k % 23 == 22 || k + 23 > len;
      if constexpr (requires { Sut::always_look; }) look = true;
      t.step(op, a, look); ++n;
    }
  }
  t.kill();
  out.flush();
  std::printf("STATS {\"events\":%ld,\"runs\":%d}\n", n, runs);
  return 0;
}

template <class Sut> int run_trace(const char* file, std::uint64_t seed, int runs, int len) {
  out.open(file); tracing = true;
  Rng rng{seed};
  Traced<Sut> t;
  long n = 0;
  for (int r = 0; r < runs; ++r) {
    alarm(30);
    t.fresh();
    t.sut->profile(rng, r);
    for (int k = 0; k < len; ++k) {
      int op = 0; IV a;
      if (!t.sut->gen(rng, op, a)) break;
      t.step(op, a); ++n;
    }
  }
  t.kill();
  out.flush();
  std::printf("STATS {\"events\":%ld,\"runs\":%d}\n", n, runs);
  return 0;
}

// OPS file: one operation per line, "name args..."; "reset" starts a new run
template <class Sut> int run_replay(const char* file, const char* ops) {
  out.open(file); tracing = true;
  FILE* f = std::fopen(ops, "r");
  if (!f) { std::perror(ops); return 3; }
  Traced<Sut> t; t.fresh();
  char line[1 << 16];
  long n = 0;
  while (std::fgets(line, sizeof line, f)) {
    alarm(30);
    std::string s(line); size_t p = 0;
    auto tok = [&]() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n')) ++p; size_t b = p; while (p < s.size() && s[p] != ' ' && s[p] != '\n') ++p; return s.substr(b, p - b); };
    std::string name = tok();
    if (name.empty() || name[0] == '(') continue;
    if (name == "reset") { t.fresh(); continue; }
    IV a; for (std::string x = tok(); !x.empty(); x = tok()) a.push_back(std::atoi(x.c_str()));
    t.step(op_code<Sut>(name.c_str()), a); ++n;
  }
  std::fclose(f);
  t.kill();
  out.flush();
  std::printf("STATS {\"events\":%ld,\"runs\":1}\n", n);
  return 0;
}

template <class Sut> int main_for(int argc, char** argv) {
  install();
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "graph" && argc == 5) return run_graph<Sut>(argv[2], std::strtoull(argv[3], nullptr, 10), std::atof(argv[4]));
  if (mode == "trace" && argc == 6) return run_trace<Sut>(argv[2], std::strtoull(argv[3], nullptr, 10), std::atoi(argv[4]), std::atoi(argv[5]));
  if constexpr (requires(Sut& s) { s.profile_long(1); s.bias; })
    if (mode == "long" && argc == 6) return run_long<Sut>(argv[2], std::strtoull(argv[3], nullptr, 10), std::atoi(argv[4]), std::atoi(argv[5]));
  if (mode == "replay" && argc == 4) return run_replay<Sut>(argv[2], argv[3]);
  std::fprintf(stderr, "usage: VARIANT graph FILE SEED SECS | VARIANT trace OUT SEED RUNS LEN | VARIANT replay OUT OPS\n");
  return 3;
}

// argv[1] selects the variant (an instantiation of the SUT)
using MainFn = int (*)(int, char**);
inline int dispatch(int argc, char** argv, std::initializer_list<std::pair<const char*, MainFn>> vs) {
  if (argc > 1) for (auto& v : vs) if (str_eq(v.first, argv[1])) return v.second(argc - 1, argv + 1);
  std::fprintf(stderr, "unknown variant\n");
  return 3;
}

} // namespace drv
