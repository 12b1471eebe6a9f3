// cest::queue bound to spec/Fifo.tla
#include "runtime_main.hpp"
#include "queue_sut.hpp"
#include <algorithm>
#include <deque>
#include <list>
// long histories: the window slides over many storage blocks
template <class T, class C> struct LongQueue : QueueSut<T, C, 1> {
  using B = QueueSut<T, C, 1>;
  int target = 0;
  void profile(Rng& g, int run) { B::profile(g, run); }
  bool gen(Rng& g, int& op, IV& a) {
    int n = int(this->o[0]->size());
    if (g.chance(1, 400)) target = g.in(0, 1400);
    a = {0};
    if (g.chance(1, 500)) { op = B::O_drain; return true; }
    if (n == 0 || g.chance(n < target ? 5 : 4, 9)) { op = g.chance(1, 3) ? B::O_push_mv : B::O_push; a.push_back(this->rv(g)); }
    else op = B::O_pop;
    return true;
  }
};
template <class T> using D = cest::deque<T>;
template <class T> using Li = cest::list<T>;
// a container of the client's own with nothing but what a queue may use
template <class T> class Ring {
  T* p[64] = {};
  unsigned short f = 0, n = 0;
public:
  using value_type = T; using size_type = unsigned short; using reference = T&; using const_reference = const T&;
  Ring() = default;
  Ring(const Ring& o) { for (unsigned i = 0; i < o.n; ++i) push_back(o.at(i)); }
  Ring(Ring&& o) noexcept { std::swap(p, o.p); std::swap(f, o.f); std::swap(n, o.n); }
  Ring& operator=(Ring o) noexcept { std::swap(p, o.p); std::swap(f, o.f); std::swap(n, o.n); return *this; }
  ~Ring() { while (n) pop_front(); }
  void push_back(const T& x) { p[(f + n) % 64] = new T(x); ++n; }
  void push_back(T&& x) { p[(f + n) % 64] = new T(std::move(x)); ++n; }
  void pop_front() { delete p[f]; f = (f + 1) % 64; --n; }
  T& front() { return *p[f]; }
  T& back() { return *p[(f + n - 1) % 64]; }
  const T& front() const { return *p[f]; }
  const T& back() const { return *p[(f + n - 1) % 64]; }
  bool empty() const { return n == 0; }
  size_type size() const { return n; }
  // for the driver
  const T& at(unsigned i) const { return *p[(f + i) % 64]; }
  void push_front(T&& x) { f = (f + 63) % 64; p[f] = new T(std::move(x)); ++n; }
  void clear() { while (n) pop_front(); }
  struct It {
    const Ring* r; unsigned i;
    const T& operator*() const { return r->at(i); }
    It& operator++() { ++i; return *this; }
    bool operator!=(const It& o) const { return i != o.i; }
  };
  It begin() const { return {this, 0}; }
  It end() const { return {this, n}; }
};
int main(int argc, char** argv) {
#ifdef MOVE_ONLY   // elements that can only be moved: a driver of their own
  return drv::dispatch(argc, argv, {{"M", drv::main_for<QueueSut<M, D<M>, 2>>}});
#elif defined CLIENT  // containers that are not the library's
  return drv::dispatch(argc, argv, {{"sd", drv::main_for<QueueSut<E, std::deque<E>, 2>>}, {"sl", drv::main_for<QueueSut<M, std::list<M>, 2, true>>},
                                    {"ring", drv::main_for<QueueSut<E, Ring<E>, 2>>}});
#elif defined WIDE  // wide elements
  return drv::dispatch(argc, argv, {{"W", drv::main_for<QueueSut<W, D<W>, 2>>}, {"Wl", drv::main_for<QueueSut<W, Li<W>, 2>>}});
#else
  return drv::dispatch(argc, argv, {
    {"deque1", drv::main_for<QueueSut<E, D<E>, 1>>}, {"deque2", drv::main_for<QueueSut<E, D<E>, 2>>}, {"dequei", drv::main_for<QueueSut<int, D<int>, 2>>},
    {"list1", drv::main_for<QueueSut<E, Li<E>, 1>>}, {"list2", drv::main_for<QueueSut<E, Li<E>, 2>>}, {"listi", drv::main_for<QueueSut<int, Li<int>, 2>>},
    {"dequel", drv::main_for<LongQueue<int, D<int>>>}, {"listl", drv::main_for<LongQueue<int, Li<int>>>}});
#endif
}
