#pragma once
#include "ptr_world.hpp"
#include <cest/memory.hpp>
#include <cest/shared_ptr.hpp>

struct SObj;
// what an assignment ends must not find the pointer still holding it
struct SWorld : World { SObj* obj[MAXID + 1] = {}; const cest::shared_ptr<SObj>* watch = nullptr; };
// no virtual destructor: only deleting it as what it was given as is right
struct SObj {
  SWorld* w; int id; int val;
  cest::shared_ptr<SObj> next;
  constexpr SObj(SWorld* a, int b) : w(a), id(b), val(b) { if (w) { w->born(id); w->obj[id] = this; } }
  SObj(const SObj&) = delete;
  SPARED_NEW
  constexpr ~SObj() { if (w) { if (w->watch && w->watch->get() == this) w->note(-200); w->obj[id] = nullptr; w->died(id); } }
};
struct SPad { int pad[3] = {7, 8, 9}; };   // the object is not at the start of what is derived from it
struct SDer : SPad, SObj {
  int more[6] = {};
  constexpr SDer(SWorld* a, int b) : SObj(a, b) {}
  constexpr ~SDer() { w->note(100 + id); }
};
struct SDel {
  SWorld* w; int k;
  template <class U> constexpr void operator()(U* p) const { w->note(200 + k); delete p; }
};
struct SDelA {
  SWorld* w; int k;
  template <class U> constexpr void operator()(U* p) const { w->note(200 + k); delete[] p; }
};
// owns no object: what it is given is null
struct SDelNull {
  SWorld* w; int id;
  constexpr void operator()(SObj* p) const { w->note(p ? -206 : 206); w->died(id); }
};
struct SOther { template <class U> constexpr void operator()(U* p) const { delete p; } };
constexpr void sptr_free(SObj* p) { p->w->note(203); delete p; }
// an element of an array; the first of them is what the world knows of it
struct SEl {
  SWorld* w; int id, j, val;
  constexpr SEl(SWorld* a, int b, int c) : w(a), id(b), j(c), val(b) { if (j == 1 && w) w->born(id); }
  SEl(const SEl&) = delete;
  SPARED_NEW
  constexpr ~SEl() { if (w) { w->note(1000 + 10 * id + j); if (j == 1) w->died(id); } }
};

inline constexpr int sptr_ext_int = 0;
template <int K, int M, bool ARR> struct SPtrSut : SutBase {
#define L(X) X(make) X(make_null) X(copy_new) X(assign) X(move_new) X(massign) X(alias) X(swap) X(link) X(unlink) X(getnext) X(skip) X(fan) X(many) X(getdel) X(read) X(index)
  SUT_OPS(L)
#undef L
  using E = std::conditional_t<ARR, SEl, SObj>;
  using P = cest::shared_ptr<std::conditional_t<ARR, SEl[], SObj>>;
  using Q = cest::shared_ptr<int>;
  SWorld w;
  alignas(E) E* ext = nullptr;
  int extint = 99;
  P p[K];
  Q q[M ? M : 1];
  constexpr SPtrSut() { if constexpr (ARR) ext = new E(nullptr, 99, 1); else ext = new E(nullptr, 99); }
  SPtrSut(const SPtrSut&) = delete;
  constexpr ~SPtrSut() {
    {
      Counting c;
      for (auto& x : p) { std::destroy_at(&x); std::construct_at(&x); }
      for (auto& x : q) { std::destroy_at(&x); std::construct_at(&x); }
      // what is left are cycles
      if constexpr (!ARR) for (int i = 1; i <= MAXID; ++i) if (w.obj[i]) { P t = w.obj[i]->next; w.obj[i]->next = P(); }
    }
    delete ext;
  }
  constexpr int what(const E* x) const { return x ? x == ext ? 99 : x->id : 0; }
  constexpr int what(const int* x) const { return x ? x == &extint ? 99 : *x : 0; }
  template <class S> constexpr void see(const S& x, IV& obs) const {
    obs.push_back(int(x.use_count()));
    obs.push_back(what(x.get()));
    obs.push_back(bool(x));
  }
  constexpr void observe(IV& obs) const {
    for (auto& x : p) see(x, obs);
    for (int i = 0; i < M; ++i) see(q[i], obs);
    for (int i = 1; i <= MAXID; ++i) if (w.alive[i]) {
      obs.push_back(i);
      if constexpr (ARR) { obs.push_back(0); obs.push_back(0); obs.push_back(0); }
      else if (w.obj[i]) see(w.obj[i]->next, obs);
      else see(P(), obs);
    }
    obs.push_back(w.n);
    obs.push_back(no_leak(w.n == 0));
  }
  constexpr P owned(int kind) {
    int i = w.fresh();
    if constexpr (ARR) {
      int n = kind % 10;
      lens[i] = n;
      E* x = n == 1 ? new E[1]{{&w, i, 1}} : n == 2 ? new E[2]{{&w, i, 1}, {&w, i, 2}} : new E[3]{{&w, i, 1}, {&w, i, 2}, {&w, i, 3}};
      if (kind > 30) { cest::default_delete<const E[]> d = cest::default_delete<E[]>(); return P(x, d); }
      if (kind > 20) return P(x, SDelA{&w, 2});
      return P(x);
    } else switch (kind) {
      case 1: return P(new SDer(&w, i));
      case 2: case 3: return P(new SObj(&w, i), SDel{&w, kind - 1});
      case 4: return P(new SDer(&w, i), SDel{&w, 1});
      case 5: return P(new SObj(&w, i), &sptr_free);
      case 6: w.born(i); return P(static_cast<SObj*>(nullptr), SDelNull{&w, i});
      case 7: { cest::default_delete<SObj> d = cest::default_delete<SDer>(); return P(new SObj(&w, i), d); }
      case 8: return P(new SDer(&w, i), cest::default_delete<SDer>());
      default: return P(new SObj(&w, i));
    }
  }
  template <class S> constexpr void rebuild(S& x) { std::destroy_at(&x); std::construct_at(&x); }
  template <class S> constexpr void plain(int op, S& x, S& y, int f, IV& r) {
    switch (op) {
      case O_make_null: if (f == 0) rebuild(x); else if (f == 1) x = S(nullptr); else x = S(); break;
      case O_copy_new: std::destroy_at(&x); { const S& z = y; std::construct_at(&x, z); } break;
      case O_assign: { const S& z = y; S& back = x = z; if (&back != &x) r.push_back(-1); break; }
      case O_move_new: std::destroy_at(&x); std::construct_at(&x, std::move(y)); break;
      case O_massign: x = std::move(y); break;
      case O_swap: { using std::swap; swap(x, y); break; }
      case O_fan: {
        DV<S*> v;
        for (int i = 0; i < f; ++i) { v.push_back(new S(x)); r.push_back(int(v.back()->use_count())); if (v.back()->get() != x.get()) r.push_back(-1); }
        // gone in an order of its own
        for (int i = 0; i < f; i += 2) { delete v[std::size_t(i)]; v[std::size_t(i)] = nullptr; }
        for (auto* z : v) delete z;
        r.push_back(int(x.use_count()));
        break;
      }
      case O_many: {
        { DV<S> v(std::size_t(f), x); r.push_back(int(v.back().use_count())); r.push_back(v.front().get() == x.get()); }
        r.push_back(int(x.use_count()));
        break;
      }
    }
  }
  template <class S> constexpr void alias(P& d, const S& o, int f) {
    E* t = nullptr;
    if constexpr (std::is_same_v<S, P>) { if (f == 0) t = o.get(); }
    if (f == 1) t = ext;
    d = P(o, t);
  }
  template <class S> constexpr void alias(Q& d, const S& o, int f) {
    int* t = nullptr;
    if constexpr (std::is_same_v<S, P>) { if (f == 0) t = &o.get()->val; }
    if (f == 1) t = &extint;
    d = Q(o, t);
  }
  constexpr void apply(int op, IV& a, IV& r) {
    Counting c;
    int s = a[0], t = a.size() > 1 ? a[1] : 0;
    if constexpr (!ARR) switch (op) {
      case O_make_null: if (t == 0) break; [[fallthrough]];
      case O_make: case O_assign: case O_massign: case O_alias: if (s < K) w.watch = &p[s]; break;
      case O_link: case O_unlink: case O_skip: w.watch = &p[s]->next; break;
      case O_getnext: w.watch = &p[t]; break;
    }
    switch (op) {
      case O_make: p[s] = owned(t); break;
      case O_make_null: case O_fan: case O_many: if (s < K) plain(op, p[s], p[s], t, r); else plain(op, q[s - K], q[s - K], t, r); break;
      case O_copy_new: case O_assign: case O_move_new: case O_massign: case O_swap:
        if (s < K) plain(op, p[s], p[t], 0, r); else plain(op, q[s - K], q[t - K], 0, r); break;
      case O_alias:
        if (s < K) { if (t < K) alias(p[s], p[t], a[2]); else alias(p[s], q[t - K], a[2]); }
        else { if (t < K) alias(q[s - K], p[t], a[2]); else alias(q[s - K], q[t - K], a[2]); }
        break;
      case O_link: if constexpr (!ARR) p[s]->next = p[t]; break;
      case O_unlink: if constexpr (!ARR) (*p[s]).next = P(); break;
      case O_getnext: if constexpr (!ARR) p[t] = p[s]->next; break;
      case O_skip: if constexpr (!ARR) { P& n = p[s]->next; if (n && n.get() != ext) n = n->next; else n = P(); } break;
      case O_getdel: {
        if constexpr (ARR) { auto* d = get_deleter<SDelA>(p[s]); r.push_back(d ? d->k : 0); }
        else { auto* d = get_deleter<SDel>(p[s]); r.push_back(d ? d->k : 0); }
        r.push_back(get_deleter<SOther>(p[s]) != nullptr);
        break;
      }
      case O_read:
        if (s >= K) { const Q& x = q[s - K]; r.push_back(*x); r.push_back(*x.get()); r.push_back(*x); }
        else if constexpr (!ARR) { const P& x = p[s]; r.push_back((*x).id); r.push_back(x->id); r.push_back(x.get()->id); }
        break;
      case O_index:
        if constexpr (ARR) { const P& x = p[s]; for (int i = 0, n = len_of(s); i < n; ++i) r.push_back(1000 + 10 * x[i].id + x[i].j); }
        break;
    }
    if constexpr (!ARR) w.watch = nullptr;
    w.report(r);
  }
  constexpr void failed(IV& r) { w.watch = nullptr; w.report(r); }
  static constexpr bool may_fail(int op, const IV&) { return op == O_make || op == O_assign || op == O_copy_new || op == O_link || op == O_getnext || op == O_alias; }
  int lens[MAXID + 1] = {};        // of the arrays, for reading them
  constexpr int len_of(int s) const { return lens[p[s].get()->id]; }
  constexpr bool real(int s) const { return s < K && p[s] && p[s].get() != ext; }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), u = M ? g.below(K + M) : s, v = M ? g.below(K + M) : t;
    int k = g.below(100);
    bool room = w.n < MAXID - 1;
    a = {s};
    if (k < 16 && room) { op = O_make; a.push_back(ARR ? g.in(1, 3) * 10 + g.in(1, 3) : g.below(9)); }
    else if (k < 24) { op = O_make_null; a = {u, g.below(3)}; }
    else if (k < 48) { op = k < 30 && s != t ? O_copy_new : k < 33 && s != t ? O_move_new : k < 36 && s != t ? O_massign : k < 40 && s != t ? O_swap : O_assign; a.push_back(t); }
    else if (k < 56 && M > 1) { int x = K + g.below(M), y = K + g.below(M); op = x == y ? O_assign : g.chance(1, 2) ? O_copy_new : g.chance(1, 2) ? O_swap : O_assign; a = {x, y}; }
    else if (k < 66 && M) { op = O_alias; bool own = v < K && p[v].use_count() && real(v); a = {u, v, own && g.chance(2, 3) ? 0 : g.in(1, 2)}; }
    else if (k < 78 && !ARR && real(s)) { op = O_link; a.push_back(t); }
    else if (k < 81 && !ARR && real(s)) op = O_unlink;
    else if (k < 87 && !ARR && real(s)) { op = O_getnext; a.push_back(g.chance(1, 2) ? s : t); }
    else if (k < 89 && !ARR && real(s)) op = O_skip;
    else if (k < 92) {
      op = O_fan; a = {u, g.in(1, 5)};
#ifdef CT
      int top = 4;
#else
      int top = 17;
#endif
      if (g.chance(1, 5)) { op = O_many; a[1] = g.in(1, 1 << g.in(0, top)); }
    }
    else if (k < 94) op = O_getdel;
    else if (ARR && real(s)) op = O_index;
    else if (u >= K ? bool(q[u - K]) : !ARR && bool(p[u])) { op = O_read; a = {u}; }
    else op = O_assign, a.push_back(s);
    return true;
  }
};
