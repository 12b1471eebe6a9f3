#pragma once
#include "ptr_world.hpp"
#include <cest/memory.hpp>

struct UObj;
// while a pointer takes over another object, it must not be seen to hold the one that ends
struct UWorld : World { const cest::unique_ptr<UObj>* watch = nullptr; };
struct UObj {
  UWorld* w; int id;
  cest::unique_ptr<UObj> next;
  constexpr UObj(UWorld* a, int b) : w(a), id(b) { w->born(id); }
  constexpr UObj(UWorld* a, int& b, cest::unique_ptr<UObj> c) : w(a), id(b), next(std::move(c)) { w->born(id); b = 0; }
  UObj(const UObj&) = delete;
  constexpr virtual ~UObj() { if (w->watch && w->watch->get() == this) w->note(-200); w->died(id); }
  constexpr int who() const { return id; }
  constexpr virtual int tag() const { return id; }
};
struct UPad { int pad[3] = {7, 8, 9}; constexpr virtual ~UPad() = default; };   // the object is not at the start of what is derived from it
struct UDer : UPad, UObj {
  constexpr UDer(UWorld* a, int b) : UObj(a, b) {}
  constexpr ~UDer() override { w->note(100 + id); }
  constexpr int tag() const override { return 100 + id; }
};
template <int K> struct UPtrSut : SutBase {
#define L(X) X(make) X(make_null) X(make_raw) X(move_new) X(massign) X(renew) X(reset_raw) X(release) X(delete_raw) X(push) X(link) X(unlink) X(next) X(swap) X(read) X(cmp)
  SUT_OPS(L)
#undef L
  using P = cest::unique_ptr<UObj>;
  UWorld w;
  UObj* raw[MAXID + 1] = {};       // what the client holds by plain pointer
  P p[K];
  constexpr UPtrSut() {}
  UPtrSut(const UPtrSut&) = delete;
  constexpr ~UPtrSut() { Counting c; for (auto& x : p) { std::destroy_at(&x); std::construct_at(&x); } for (auto& x : raw) { delete x; x = nullptr; } }
  static constexpr int id(const UObj* x) { return x ? x->id : 0; }
  constexpr void observe(IV& obs) const {
    for (auto& x : p) {
      int n = 0, at = int(obs.size());
      obs.push_back(0);
      for (const UObj* y = x.get(); y && n < WALK_CAP; y = y->next.get(), ++n) obs.push_back(y->tag());
      obs[std::size_t(at)] = bool(x) == (n > 0) ? n : -1;
    }
    for (auto x : raw) if (x) { obs.push_back(-1); obs.push_back(x->tag()); for (const UObj* y = x->next.get(); y; y = y->next.get()) obs.push_back(y->tag()); }
    obs.push_back(w.n);
    obs.push_back(no_leak(w.n == 0));
  }
  constexpr UObj* create(int kind) { int i = w.fresh(); return kind == 1 ? new UDer(&w, i) : new UObj(&w, i); }
  // a new object, owned in one of the ways there are
  constexpr P owned(int kind) {
    int i = w.fresh();
    if (kind == 2) return cest::make_unique<UObj>(&w, i);
    if (kind == 3) { cest::unique_ptr<UDer> d(new UDer(&w, i)); P q(std::move(d)); if (d) w.note(-99); return q; }
    return P(create(kind));
  }
  constexpr void rebuild(int s, P* from) { std::destroy_at(&p[s]); if (from) std::construct_at(&p[s], std::move(*from)); else std::construct_at(&p[s]); }
  constexpr void apply(int op, IV& a, IV& r) {
    Counting c;
    int s = a[0];
    w.watch = op == O_renew || op == O_reset_raw || op == O_massign || op == O_next ? &p[s] : nullptr;
    switch (op) {
      case O_make: p[s] = owned(a[1]); break;
      case O_make_null: rebuild(s, nullptr); break;
      case O_make_raw: { UObj* x = raw[a[1]]; raw[a[1]] = nullptr; std::destroy_at(&p[s]); std::construct_at(&p[s], x); break; }
      case O_move_new: rebuild(s, &p[a[1]]); break;
      case O_massign: p[s] = std::move(p[a[1]]); break;
      case O_renew: if (a[1] < 0) p[s].reset(); else p[s].reset(create(a[1])); break;
      case O_reset_raw: { UObj* x = raw[a[1]]; raw[a[1]] = nullptr; p[s].reset(x); break; }
      case O_release: { UObj* x = p[s].release(); r.push_back(id(x)); if (x) raw[x->id] = x; break; }
      case O_delete_raw: { UObj* x = raw[a[1]]; raw[a[1]] = nullptr; delete x; break; }
#ifdef MOVE_ONLY   // make_unique passes its arguments on as they are
      case O_push: { int i = w.fresh(); p[s] = cest::make_unique<UObj>(&w, i, std::move(p[s])); if (i) w.note(-300); break; }
#else
      case O_push: { P n = owned(a[1]); n->next = std::move(p[s]); p[s] = std::move(n); break; }
#endif
      case O_link: p[s]->next = std::move(p[a[1]]); break;
      case O_unlink: p[a[1]] = std::move((*p[s]).next); break;
      case O_next: p[s] = std::move(p[s]->next); break;
      case O_swap: { using std::swap; swap(p[s], p[a[1]]); break; }
      case O_read: { const P& q = p[s]; r.push_back(p[s]->who()); r.push_back((*p[s]).who()); r.push_back((*q).who()); r.push_back(q->who()); r.push_back(q.get()->who()); break; }
      case O_cmp: {
        const P &x = p[s], &y = p[a[1]];
        r.push_back(x == y); r.push_back(x != y);
        // the order of two objects is not known, but it is one
        bool ct = std::is_constant_evaluated();
        r.push_back(ct || x.get() == y.get() ? 1 : ((x < y) + (y < x) == 1));
        r.push_back(ct && x.get() != y.get() ? 1 : ((x <= y) == !(y < x) && (x > y) == (y < x) && (x >= y) == !(x < y) && (x < y) == (x.get() < y.get())));
        break;
      }
    }
    w.watch = nullptr;
    w.report(r);
  }
  constexpr int len(int s) const { int n = 0; for (const UObj* y = p[s].get(); y; y = y->next.get()) ++n; return n; }
  constexpr bool gen(Rng& g, int& op, IV& a) {
    int s = g.below(K), t = g.below(K), rw = 0;
    for (int i = 1, n = 0; i <= MAXID; ++i) if (raw[i] && g.below(++n) == 0) rw = i;
    a = {s};
    int k = g.below(100);
    bool room = w.n < MAXID - 1;
    if (k < 18 && room) { op = O_make; a.push_back(g.below(4)); }
    else if (k < 36 && room) {
      op = O_push;
#ifdef MOVE_ONLY
      a.push_back(2);
#else
      a.push_back(g.below(4));
#endif
    }
    else if (k < 40) op = O_make_null;
    else if (k < 46 && s != t) { op = O_move_new; a.push_back(t); }
    else if (k < 54) { op = O_massign; a.push_back(t); }
    else if (k < 60) { op = O_renew; a.push_back(room ? g.in(-1, 1) : -1); }
    else if (k < 66) op = O_release;
    else if (k < 70 && rw) { op = O_delete_raw; a[0] = 0; a.push_back(rw); }
    else if (k < 76 && rw) { op = g.chance(1, 2) ? O_reset_raw : O_make_raw; a.push_back(rw); }
    else if (k < 82 && p[s] && s != t) { op = O_link; a.push_back(t); }
    else if (k < 86 && p[s] && s != t) { op = O_unlink; a.push_back(t); }
    else if (k < 91 && p[s]) op = O_next;
    else if (k < 94) { op = O_swap; a.push_back(t); }
    else if (k < 97 && p[s]) op = O_read;
    else { op = O_cmp; a.push_back(t); }
    return true;
  }
};
