// Object lifetime and storage (C14) and exception safety (C15): the adapters
// of all containers over an element type and an allocator that record every
// construction, assignment, destruction, allocation and release, and that can
// be told to throw at the n-th point where they may.
//
// usage: VARIANT life|fault OUT LIFEOUT SEED RUNS LEN
//   OUT      the history, for the container's own specification; a call that
//            ended in an exception is "x_<op>", with the content the target
//            is left with (and its length) behind the arguments
//   LIFEOUT  what happened to elements and storage, for spec/Life.tla
#include <string_view>
#include <cstddef>
#include <cstdlib>
#include <new>
#include <memory>
#include <map>
#include <cstring>
template <class T> struct MAlloc {   // the driver's own storage: not recorded
  using value_type = T;
  MAlloc() = default;
  template <class U> MAlloc(const MAlloc<U>&) {}
  T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T) + !n)); }
  void deallocate(T* p, std::size_t) { std::free(p); }
  friend bool operator==(MAlloc, MAlloc) { return true; }
};
#define DRIVER_ALLOC MAlloc
template <class T> struct TrackAlloc;
#define SUT_ALLOC TrackAlloc
#include "common.hpp"

namespace life {
using std::size_t;
bool logging = false;        // inside a call on the containers
long countdown = 0;          // > 0: throw when it reaches 0
bool threw = false;
IV ev;                       // kind, block, offset, block 2, offset 2
struct Block { size_t n; int id; };
using BM = std::map<std::uintptr_t, Block, std::less<std::uintptr_t>, MAlloc<std::pair<const std::uintptr_t, Block>>>;
BM& blocks() { static BM m; return m; }
int next_id = 0;
std::map<std::uintptr_t, int, std::less<std::uintptr_t>, MAlloc<std::pair<const std::uintptr_t, int>>> outside;
struct Boom {};
void fault_point(bool alloc) {
  if (logging && countdown > 0 && --countdown == 0) {
    threw = true;
    if (alloc) throw std::bad_alloc();
    throw Boom();
  }
}
void put(int k, int a, int b, int c = 0, int d = 0) { for (int x : {k, a, b, c, d}) ev.push_back(x); }
// where an object is: block and offset, or -1 and a number
std::pair<int, int> loc(const void* p) {
  auto x = reinterpret_cast<std::uintptr_t>(p);
  auto it = blocks().upper_bound(x);
  if (it != blocks().begin()) { --it; if (x < it->first + it->second.n) return {it->second.id, int(x - it->first)}; }
  auto r = outside.insert({x, int(outside.size())});
  return {-1, r.first->second};
}
void* alloc(size_t n, int kind) {
  if (!logging) return std::malloc(n + !n);
  fault_point(true);
  void* p = std::malloc(n + !n);
  std::memset(p, 0xa5, n);
  int id = next_id++;
  blocks()[reinterpret_cast<std::uintptr_t>(p)] = {n, id};
  put(1, id, int(n), kind);
  return p;
}
void release(void* p, long n, int kind) {
  if (!p) return;
  auto it = blocks().find(reinterpret_cast<std::uintptr_t>(p));
  if (it != blocks().end()) { put(2, it->second.id, int(n), kind); blocks().erase(it); }
  else if (logging) { put(2, -1, int(n), kind); return; }     // not (or no longer) allocated: do not crash, the specification rejects it
  std::free(p);
}
enum { CTOR = 3, COPY = 4, ASSIGN = 5, DTOR = 6 };
void obj(int k, const void* p, const void* from = nullptr) {
  if (!logging) return;
  auto a = loc(p);
  auto b = from ? loc(from) : std::pair<int, int>{0, 0};
  put(k, a.first, a.second, b.first, b.second);
}
}
void* operator new(std::size_t n) { return life::alloc(n, 0); }
void* operator new[](std::size_t n) { return life::alloc(n, 0); }
void operator delete(void* p) noexcept { life::release(p, -1, 0); }
void operator delete[](void* p) noexcept { life::release(p, -1, 0); }
void operator delete(void* p, std::size_t n) noexcept { life::release(p, long(n), 0); }
void operator delete[](void* p, std::size_t n) noexcept { life::release(p, long(n), 0); }
template <class T> struct TrackAlloc {
  using value_type = T;
  // it goes with the storage, wherever that may go
  using propagate_on_container_copy_assignment = std::true_type;
  using propagate_on_container_move_assignment = std::true_type;
  using propagate_on_container_swap = std::true_type;
  using is_always_equal = std::false_type;
  int id = 0;
  constexpr TrackAlloc() = default;
  explicit constexpr TrackAlloc(int i) : id(i) {}
  template <class U> constexpr TrackAlloc(const TrackAlloc<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) { return static_cast<T*>(life::alloc(n * sizeof(T), 1 + id)); }
  void deallocate(T* p, std::size_t n) { life::release(p, long(n * sizeof(T)), 1 + id); }
  friend constexpr bool operator==(TrackAlloc a, TrackAlloc b) { return a.id == b.id; }
};

// NX: moving cannot fail
template <bool NX> struct Tr {
  int x;
  void ctor(const Tr* from) { life::fault_point(false); life::obj(from ? life::COPY : life::CTOR, this, from); }
  Tr() : x(0) { ctor(nullptr); }
  Tr(int v) : x(v) { ctor(nullptr); }
  Tr(const Tr& o) : x(o.x) { ctor(&o); }
  Tr(Tr&& o) noexcept(NX) : x(o.x) { if (NX) life::obj(life::COPY, this, &o); else ctor(&o); o.x = -99; }
  Tr& operator=(const Tr& o) { life::fault_point(false); life::obj(life::ASSIGN, this, &o); x = o.x; return *this; }
  Tr& operator=(Tr&& o) noexcept(NX) { if (!NX) life::fault_point(false); life::obj(life::ASSIGN, this, &o); if (this != &o) { x = o.x; o.x = -99; } return *this; }
  ~Tr() { life::obj(life::DTOR, this); x = -77; }
  friend bool operator==(const Tr& a, const Tr& b) { life::fault_point(false); return a.x == b.x; }
  friend bool operator!=(const Tr& a, const Tr& b) { life::fault_point(false); return a.x != b.x; }
  friend bool operator<(const Tr& a, const Tr& b) { life::fault_point(false); return a.x < b.x; }
};
template <bool NX> int val(const Tr<NX>& t) { return t.x; }

#include "runtime_main.hpp"
constexpr int K = 3;
// entries per element, trailing numbers per object in an observation
#if WHAT == 1
#include "vector_sut.hpp"
template <class T> using Sut = VectorSut<T, K>;
constexpr int PER = 1, TRAIL = 0;
const char* const no_fault[] = {"at", "cat", "set_at", "at_far"};   // the adapter catches everything there
#elif WHAT == 2
#include "deque_sut.hpp"
template <class T> using Sut = DequeSut<T, K>;
constexpr int PER = 1, TRAIL = 0;
const char* const no_fault[] = {""};
#elif WHAT == 3
#include "list_sut.hpp"
template <class T> using Sut = ListSut<T, K, 0>;
constexpr int PER = 1, TRAIL = 0;
const char* const no_fault[] = {""};
#elif WHAT == 4
#include "flist_sut.hpp"
template <class T> using Sut = FListSut<T, K, 0>;
constexpr int PER = 1, TRAIL = 0;
const char* const no_fault[] = {""};
#elif WHAT == 5
#include "set_sut.hpp"
template <class T> using Sut = SetSut<T, std::less<T>, EProbe, K, 0>;
constexpr int PER = 1, TRAIL = 0;
const char* const no_fault[] = {""};
#elif WHAT == 6
#include "map_sut.hpp"
template <class T> using Sut = MapSut<T, std::less<T>, EProbe, K, 0>;
constexpr int PER = 2, TRAIL = 0;
const char* const no_fault[] = {"insert_set"};    // two steps in one
#elif WHAT == 7
#include "str_sut.hpp"
template <class T> using Sut = StrSut<std::conditional_t<std::is_same_v<T, Tr<true>>, char, wchar_t>, K>;
constexpr int PER = 1, TRAIL = 1;
const char* const no_fault[] = {""};
#else
#include "queue_sut.hpp"
template <class T> using Sut = QueueSut<T, std::conditional_t<std::is_same_v<T, Tr<true>>, cest::deque<T, TrackAlloc<T>>, cest::list<T, TrackAlloc<T>>>, K>;
constexpr int PER = 1, TRAIL = 0;
const char* const no_fault[] = {"take", "mtake", "assign", "from_mv", "drain"};   // a failure leaves a content nobody can see, or several steps in one
#endif

namespace life {
drv::Out out;
void event(const char* op, int reported) {
  out.put("{\"op\":\""); out.put(op); out.put("\",\"a\":"); out.arr(ev);
  out.put(",\"r\":["); if (reported >= 0) out.num(reported); out.put("],\"s\":[]}\n");
  ev.clear();
}
// the elements the containers report they hold
template <class S> int reported(const S& s) {
  int n = 0;
#if WHAT == 8
  for (auto p : s.o) n += int(p->size());
  for (auto p : s.d) n += int(p->size());
#elif WHAT != 7
  for (int i = 0; i < K; ++i) n += s.len(i) * PER;
#endif
  return n;
}
template <class S> struct Runner {
  alignas(S) unsigned char mem[sizeof(S)];
  S* sut = nullptr;
  IV ret, obs, none;
  void look() { obs.clear(); sut->observe(obs); }
  void start() {
    kill();
    blocks().clear(); next_id = 0; outside.clear(); ev.clear();
    drv::cur_op = "(create)"; drv::cur_args = &none;
    logging = true; sut = new (mem) S(); logging = false;
    look();
    drv::cur_op = nullptr;
    drv::event("reset", none, none, obs);
    out.put("{\"op\":\"reset\",\"a\":[],\"r\":[],\"s\":[]}\n");
    event("call", reported(*sut));
  }
  void kill() {
    if (!sut) return;
    drv::cur_op = "(destroy)"; drv::cur_args = &none;
    logging = true; sut->~S(); logging = false;
    sut = nullptr; drv::cur_op = nullptr;
    event("gone", 0);
  }
  // the content of object s in the last observation
  void content(int s, IV& a) {
    if (WHAT == 8) return;             // a queue's content cannot be seen
    size_t i = 0;
    for (int k = 0; k < s && i < obs.size(); ++k) i += 1 + size_t(std::max(obs[i], 0) * PER + TRAIL);
    int n = i < obs.size() ? std::max(obs[i], 0) * PER : 0;
    n = std::min(n, int(obs.size()) - int(i) - 1);
    for (int k = 0; k < n; ++k) a.push_back(obs[i + 1 + size_t(k)]);
    a.push_back(n);
  }
  static bool may_fault(int op) { for (auto n : no_fault) if (str_eq(n, S::names[op])) return false; return true; }
  // returns whether the call threw
  bool step(int op, const IV& a0, long k) {
    drv::cur_op = S::names[op]; drv::cur_args = &a0;
    ret.clear();
    IV a = a0;
    ret.reserve(4096); a.reserve(4096); ev.reserve(1 << 16);
    if (std::string_view(S::names[op]).substr(0, 4) == "make") put(9, 1 + (WHAT == 1 || WHAT == 7 || (WHAT == 2 && !str_eq(S::names[op], "make")) ? a0[0] : 0), 0);
    threw = false; countdown = k; logging = true;
    bool caught = false;
    try { sut->apply(op, a, ret); }
    catch (const Boom&) { caught = true; }
    catch (const std::bad_alloc&) { caught = true; }
    logging = false; countdown = 0;
    if constexpr (requires { sut->resync(); }) if (caught) sut->resync();
    look();
    if (caught) {
      static char name[64];
      std::snprintf(name, sizeof name, "x_%s", S::names[op]);
      ret.clear(); a = a0;
      content(a[0], a);
      drv::event(name, a, ret, obs);
    } else if (threw) drv::event("swallowed", a, ret, obs);     // the exception did not come out
    else drv::event(S::names[op], a, ret, obs);
    event("call", reported(*sut));
    drv::cur_op = nullptr;
    return caught;
  }
};
template <class S> int run(int argc, char** argv) {
  drv::install();
  if (argc != 7) return 3;
  bool faults = str_eq(argv[1], "fault");
  drv::out.open(argv[2]); drv::tracing = true;
  out.open(argv[3]);
  drv::also_on_death = [] { event("died", 0); out.flush(); };
  Rng rng{std::strtoull(argv[4], nullptr, 10)};
  int runs = std::atoi(argv[5]), len = std::atoi(argv[6]);
  Runner<S> r;
  long n = 0, thrown = 0;
  IV a, was;
  for (int i = 0; i < runs; ++i) {
    alarm(60);
    r.start();
    r.sut->profile(rng, i);
    if (r.sut->pf.maxlen > 20) r.sut->pf.maxlen = 12;
    for (int k = 0; k < len; ++k) {
      int op = 0; a.clear();
      if (!r.sut->gen(rng, op, a)) break;
      if (!faults || !r.may_fault(op) || rng.chance(1, 5)) { r.step(op, a, 0); ++n; continue; }
      // fail at every point in turn, as long as that leaves everything as it was
      for (long p = 1; p < 60; ++p) {
        r.look(); was = r.obs;
        ++n;
        if (!r.step(op, a, p)) break;
        ++thrown;
        if (r.obs != was) break;
      }
    }
  }
  r.kill();
  drv::out.flush(); out.flush();
  std::printf("STATS {\"events\":%ld,\"runs\":%d,\"thrown\":%ld}\n", n, runs, thrown);
  return 0;
}
}
int main(int argc, char** argv) {
  return drv::dispatch(argc, argv, {{"nx", life::run<Sut<Tr<true>>>}, {"mx", life::run<Sut<Tr<false>>>}});
}
