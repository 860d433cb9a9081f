// parts: 9
// rule: every element knows whether it lives and where; each operation of the catalogue runs in every state and the number of live elements, the storage they live in and what is done to them are checked; the same again with each request an operation makes of its environment failing, one at a time
// C11: elements are constructed and destroyed exactly once.
#include "../suite.hpp"
#include "../faults.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq;
  static void one(State<C>& s, const Op<S>& o) {
    op_name(o);
    S& c = s.fresh(); R.transitions++;
    o.run(c);
    size_t total = c.size();
    S* d = (o.flags & O_CTOR) ? &Maker<C>::at(2) : s.pair ? &s.second() : nullptr;
    if (d) total += d->size();
    // every position holds a live element at its own address
    for (auto it = c.cbegin(), e = c.cend(); it != e; ++it) val(*it);
    if (d) for (auto it = d->cbegin(), e = d->cend(); it != e; ++it) val(*it);
    R.checks++;
    if (El<typename C::T>::tracked && W().live_elems != int64_t(total)) err("life-count", "%lld elements are alive, the sequences hold %zu", (long long)W().live_elems, total);
    arena_check();
    if (settle()) return;
    strcpy(R.extra, "then destruction");
    if (R.transitions & 1) c.clear();
    c.~S(); if (d) d->~S();
    if (W().live_elems) err("life-leak", "%lld elements are alive after destruction", (long long)W().live_elems);
    settle();
  }
  static void visit(State<C>& s) { all_ops<C>(s, [&](const Op<S>& o) { one(s, o); }); }
};
template <class C> struct VP {
  static void visit(State<C>& s) { ops_pair<C>(s, [&](const Op<typename C::Seq>& o) { V<C>::one(s, o); }); }
};
// The same when the operation fails.
template <class C> struct VF {
  using S = typename C::Seq;
  static void visit(State<C>& s) {
    every_failure<C>(s, [&](const Op<S>&) {
      S& c = s.seq(0);
      size_t total = 0;
      for (int i = 0; i < (s.pair ? 2 : 1); ++i) {
        S& x = i ? s.second() : c; total += x.size(); size_t met = 0;
        for (auto it = x.cbegin(), e = x.cend(); it != e && met <= x.size(); ++it, ++met) val(*it);
      }
      R.checks++;
      if (El<typename C::T>::tracked && W().live_elems != int64_t(total)) err("life-count", "after the failure %lld elements are alive, the sequences hold %zu", (long long)W().live_elems, total);
      arena_check();
      if (g_err.set) return;
      strcat(R.extra, " then destruction");
      if (R.transitions & 1) c.clear();
      c.~S(); if (s.pair) s.second().~S();
      if (W().live_elems) err("life-leak", "after the failure %lld elements are alive after destruction", (long long)W().live_elems);
    });
  }
};
template <class C> void failures(const char* name, size_t q, size_t t) { Explorer<C> e; e.explore(name, R.thorough() ? t : q, VF<C>::visit); }
void go() {
  focus({"life-"});
#if PART == 1
  BFS("Trk 1,3", 21, 25, Cfg<TF, 1, 3>);
#elif PART == 2
  BFS("Trk 2,3", 12, 14, Cfg<TF, 2, 3>);
  BFS("Trk 5,4", 17, 22, Cfg<TF, 5, 4>);
#elif PART == 3
  BFS("Trk 3,3", 18, 23, Cfg<TF, 3, 3>);
  BFS("no default, no comparison 4,3", 14, 18, Cfg<TN, 4, 3>);
#elif PART == 4
  BFS("move-only 1,3", 14, 20, Cfg<TM, 1, 3>);
  BFS("move-only 3,3", 16, 20, Cfg<TM, 3, 3>);
#elif PART == 5
  BFS("copy-only 2,3", 11, 13, Cfg<TC, 2, 3>);
  BFS("copy-only 4,3", 14, 18, Cfg<TC, 4, 3>);
  BFS("may throw 3,3", 14, 18, Cfg<TX, 3, 3>);
#elif PART == 6
  FROM("Trk 8,6", fills({20, 45, 70}), 1, 1, Cfg<TF, 8, 6>);
  FROM("tall Trk 1,3", fills({40, 64}), 0, 1, Cfg<TF, 1, 3>);
  FROM("default Trk", fills({63, 64, 65, 97, 200, 2000, 3100}), 0, 1, Cfg<TF, 64, 47, 0, 1024, 768>);
#elif PART == 7
  { using C = Cfg<TF, 2, 3>; Explorer<C> e; size_t n = R.thorough() ? 8 : 6; e.explore_pairs("pairs 2,3", n, n, VP<C>::visit); }
  { using C = Cfg<TM, 1, 3>; Explorer<C> e; size_t n = R.thorough() ? 13 : 11; e.explore_pairs("pairs move-only 1,3", n, n, VP<C>::visit); }
#elif PART == 8
  { using C = Cfg<TF, 4, 3>; Explorer<C> e; size_t n = R.thorough() ? 12 : 9; e.explore_pairs("pairs 4,3", n, n, VP<C>::visit); }
  { using C = Cfg<TC, 3, 3>; Explorer<C> e; size_t n = R.thorough() ? 12 : 9; e.explore_pairs("pairs copy-only 3,3", n, n, VP<C>::visit); }
  BFS("construct/destroy 3,3", 14, 18, Cfg<TF, 3, 3, A_CON | A_DES>);
  BFS("knows its address 3,3", 16, 20, Cfg<Home, 3, 3>);
  FROM("knows its address 64", fills({65, 97}), 0, 1, Cfg<Home, 64, 47, 0, 1024, 768>);
#elif PART == 9
  failures<Cfg<TX, 1, 3>>("failures 1,3", 11, 14);
  failures<Cfg<TM, 2, 3>>("failures move-only 2,3", 9, 11);
  failures<Cfg<TX, 3, 3>>("failures 3,3", 11, 14);
  failures<Cfg<TC, 4, 3>>("failures copy-only 4,3", 11, 14);
  failures<Cfg<TN, 5, 4>>("failures, no default, no comparison 5,4", 11, 15);
#endif
}
MC_MAIN(go())
