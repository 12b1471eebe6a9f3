// comparator calls of cest::set and cest::map, bound to spec/CmpBound.tla
#include "runtime_main.hpp"
#include <cest/set.hpp>
#include <cest/map.hpp>

static long calls = 0;
static std::vector<int> place;    // key id -> position in the order (doubled)
// A key is a name; its position in the order is kept outside, so that a key
// can be put between any two others.
struct Name { int id; };
struct Other { int id; };         // names the same keys, by another type
struct Cmp {
  static int at(Other a) { return at(Name{a.id}); }
  static int at(Name a) { return a.id < 0 ? -a.id - 1 : place[std::size_t(a.id)]; }
  template <class A, class B> bool operator()(A a, B b) const { ++calls; return at(a) < at(b); }
};
struct AsSet {
  cest::set<Name, Cmp> d;
  bool insert(Name k) { return d.insert(k).second; }
  bool hint(Name k, bool first) { auto n = d.size(); calls = 0; d.insert(first ? d.cbegin() : d.cend(), k); return d.size() != n; }
  template <class N> bool find(N k) { return d.find(k) != d.end(); }
  template <class N> bool cfind(N k) const { return d.find(k) != d.end(); }
};
struct AsMap {
  cest::map<Name, int, Cmp> d;
  bool insert(Name k) { return d.insert({k, 1}).second; }
  bool hint(Name k, bool) { calls = 0; return insert(k); }
  template <class N> bool find(N k) { return d.find(k) != d.end(); }
  template <class N> bool cfind(N k) const { return d.find(k) != d.end(); }
};

template <class A> struct CmpSut : SutBase {
#define L(X) X(insert) X(insert_dup) X(find) X(find_const) X(find_gap) X(find_other) X(gap_other) X(clear) X(copy) X(assign) X(burst)
  SUT_OPS(L)
#undef L
  A* c = new A();
  std::vector<int> order;         // key ids in order
  CmpSut() { place.clear(); }
  CmpSut(const CmpSut&) = delete;
  ~CmpSut() { delete c; }
  int n() const { return int(order.size()); }
  void observe(IV& o) const { o.push_back(int(c->d.size())); }
  static Name gap(int p) { return Name{-(2 * p) - 1}; }   // position 2p: before the key of rank p
  bool put(int p) {   // a new key, the p-th of all
    int id = int(place.size());
    place.push_back(0);
    order.insert(order.begin() + p, id);
    for (int i = p; i < n(); ++i) place[std::size_t(order[std::size_t(i)])] = 2 * i + 1;
    calls = 0;
    return n() % 3 == 1 && id % 5 == 2 ? c->hint(Name{id}, id & 1) : c->insert(Name{id});
  }
  // a[1] insertions in the order a[0]; told: every number of calls that was
  // needed (negated, that of an insert), and the smallest size at which it was
  void burst(IV& a, IV& r) {
    a.resize(3);
    Rng g{std::uint64_t(a[2])};
    int was = pat, ok = 1; pat = a[0];
    std::map<int, int> first;
    auto note = [&](int at, int sign) { auto q = first.insert({sign * int(calls), at}); if (at < q.first->second) q.first->second = at; };
    for (int i = 0; i < a[1]; ++i) {
      last = where(g);
      if (last < 0) last = 0;
      if (last > n()) last = n();
      int at = n();
      if (!put(last)) ok = 0;
      note(at, -1);
      if (i % 8 == 0) { calls = 0; int k = g.below(n()); if (!c->find(Name{order[std::size_t(k)]})) ok = 0; note(n(), 1); calls = 0; if (c->cfind(gap(k))) ok = 0; note(n(), 1); }
    }
    for (auto& q : first) { a.push_back(q.first); a.push_back(q.second); }
    r.push_back(ok);
    pat = was;
  }
  void apply(int op, IV& a, IV& r) {
    if (op == O_burst) { burst(a, r); return; }
    a.resize(1);
    int p = a[0];
    switch (op) {
      case O_insert: r.push_back(put(p)); break;
      case O_insert_dup: calls = 0; r.push_back(c->insert(Name{order[std::size_t(p)]})); break;
      case O_find: calls = 0; r.push_back(c->find(Name{order[std::size_t(p)]})); break;
      case O_find_const: calls = 0; r.push_back(c->cfind(Name{order[std::size_t(p)]})); break;
      case O_find_gap: calls = 0; r.push_back(c->find(gap(p))); break;
      case O_find_other: calls = 0; r.push_back(p & 1 ? c->find(Other{order[std::size_t(p)]}) : c->cfind(Other{order[std::size_t(p)]})); break;
      case O_gap_other: calls = 0; r.push_back(p & 1 ? c->find(Other{gap(p).id}) : c->cfind(Other{gap(p).id})); break;
      case O_copy: { A* x = new A(*c); delete c; c = x; calls = 0; break; }
      case O_assign: {
        A* x = new A();
        for (int i = 0; i < p && i < n(); ++i) x->insert(Name{order[std::size_t(i * 7 % n())]});
        *x = *c; if (p & 1) *x = *x;
        delete c; c = x; calls = 0; break;
      }
      case O_clear: c->d.clear(); order.clear(); place.clear(); calls = 0; break;
    }
    a.push_back(int(calls));
  }
  int pat = 0, last = 0, blk = 0;
  void profile(Rng&, int run) { pat = run; }
  long probe(int p) { calls = 0; (void)c->find(gap(p)); return calls; }
  int where(Rng& g) {
    int m = n(), k = m;
    switch (pat % 12) {
      case 0: return m;                                   // ascending
      case 1: return 0;                                   // descending
      case 2: return (m + 1) / 2;                         // inwards
      case 3: return m % 2 ? m : 0;                       // outwards
      case 4: return g.in(0, m);                          // random
      case 5: return last + 1 <= m ? last + 1 : m;        // ascending inside, blocks below
      case 6: return last < m ? last : m;                 // descending next to the last
      case 7: return m % 2 ? (last + 1 <= m ? last + 1 : m) : (last <= m ? last : m);
      case 8: case 9: {                                   // where a search is longest now
        long best = -1;
        int tries = pat % 12 == 8 ? 12 : 3;
        for (int i = 0; i < tries; ++i) {
          int p = i == 0 ? last : i == 1 ? last + 1 : g.in(0, m);
          if (p > m) p = m;
          long q = probe(p);
          if (q > best) { best = q; k = p; }
        }
        return k;
      }
      case 10: {                                          // every gap is tried
        long best = -1;
        if (m > 90) return g.in(0, m);
        for (int p = 0; p <= m; ++p) { long q = probe(p); if (q > best || (q == best && g.chance(1, 3))) { best = q; k = p; } }
        return k;
      }
      default:                                            // blocks: up, then down
        if (blk-- <= 0) { blk = g.in(3, 40); last = g.in(0, m); }
        return g.chance(1, 2) ? (last + 1 <= m ? last + 1 : m) : (last <= m ? last : m);
    }
  }
  bool gen(Rng& g, int& op, IV& a) {
    int m = n(), k = g.below(20);
    if (k < 14 || m == 0) { op = O_insert; last = where(g); a = {last}; }
    else if (k < 15) { op = O_insert_dup; a = {g.below(m)}; }
    else if (k < 17) { op = k == 15 ? O_find : O_find_const; a = {g.chance(1, 2) ? g.below(m) : g.chance(1, 2) ? 0 : m - 1}; }
    else if (k == 17) { if (g.chance(1, 2)) { op = O_find_other; a = {g.below(m)}; } else { op = O_gap_other; a = {g.in(0, m)}; } }
    else { op = O_find_gap; a = {g.chance(1, 2) ? g.in(0, m) : g.chance(1, 2) ? 0 : m}; }
    if (g.chance(1, m < 100 ? 150 : 700)) { op = g.chance(1, 2) ? O_copy : O_assign; a = {g.in(0, 50)}; }
    if (g.chance(1, 900)) { op = O_burst; a = {g.below(12), g.chance(1, 3) ? g.in(1, 9000) : g.in(1, 2000), g.below(100000)}; }
    if (m > 300 && g.chance(1, 3000)) { op = O_clear; a = {0}; }
    return true;
  }
};
int main(int argc, char** argv) {
  return drv::dispatch(argc, argv, {{"set", drv::main_for<CmpSut<AsSet>>}, {"map", drv::main_for<CmpSut<AsMap>>}});
}
