// cest::deque bound to spec/Deque.tla and spec/DequeImpl.tla
#include "runtime_main.hpp"
#include "deque_sut.hpp"
// histories long enough for the real block size
template <class T> struct BigDeque : DequeSut<T, 1> {
  using Base = DequeSut<T, 1>;
  void profile(Rng& rng, int run) { Base::profile(rng, run); this->pf.maxlen = 2600; this->pf.grow = 2; this->mode = run % 4; }
  void observe(IV& obs) const {
    auto& d = *this->o[0];
    obs.push_back(int(d.size()));
    if (d.size()) { obs.push_back(val(d.front())); obs.push_back(val(d[d.size() / 2])); obs.push_back(val(d.back())); }
  }
  // long runs of one kind of operation at one end, some views in between
  int burst = 0, bop = 0;
  bool gen(Rng& g, int& op, IV& a) {
    int n = this->len(0);
    if (g.chance(1, 300)) { a = {0}; op = Base::O_view; a.push_back(g.below(12)); return true; }
    if (burst == 0) { burst = 200 + g.below(1300); bop = g.below(n > 900 ? 5 : 4); if (n < 300) bop = g.below(2); }
    --burst;
    a = {0};
    if (bop >= 2 && n == 0) { burst = 0; bop = 0; }
    if (bop < 2 && n >= this->pf.maxlen) { bop += 2; }
    switch (bop) {
      case 0: op = g.chance(1, 2) ? Base::O_push_back : Base::O_push_back_mv; a.push_back(this->rv(g)); break;
      case 1: op = g.chance(1, 2) ? Base::O_push_front : Base::O_push_front_mv; a.push_back(this->rv(g)); break;
      case 2: op = Base::O_pop_back; break;
      case 3: op = Base::O_pop_front; break;
      default: op = g.chance(1, 3) ? Base::O_clear : g.chance(1, 2) ? Base::O_push_back_own : Base::O_push_front_own;
               if (op != Base::O_clear) a.push_back(g.below(n)); burst = 0;
    }
    return true;
  }
};
int main(int argc, char** argv) {
#ifdef MOVE_ONLY   // elements that can only be moved: a driver of their own
  return drv::dispatch(argc, argv, {{"M", drv::main_for<DequeSut<M, 2>>}});
#elif defined WIDE  // wide elements
  return drv::dispatch(argc, argv, {{"W", drv::main_for<DequeSut<W, 2>>}});
#else
  return drv::dispatch(argc, argv, {{"int", drv::main_for<DequeSut<int, 2>>}, {"E", drv::main_for<DequeSut<E, 2>>},
                                    {"E1", drv::main_for<DequeSut<E, 1>>}, {"big", drv::main_for<BigDeque<int>>}});
#endif
}
