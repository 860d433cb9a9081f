// parts: 7
// rule: after every operation in every state, each storage slot that became occupied must have been constructed through the allocator during it and each slot that became vacant destroyed through it; with both supplied the calls balance; the same again with each request an operation makes of its environment failing, one at a time
// C13: a custom allocator sees every element construct and destroy.
#include "../suite.hpp"
#include "../faults.hpp"
#include <unordered_set>
using namespace mc;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq; using T = typename C::T;
  static constexpr bool con = (C::pol & A_CON) != 0, des = (C::pol & A_DES) != 0;
  static void occupied(std::unordered_set<const void*>& r, const S& c) { for (auto it = c.begin(), e = c.end(); it != e; ++it) r.insert(static_cast<const void*>(std::addressof(*it))); }
  static void changed(const std::unordered_set<const void*>& a, const std::unordered_set<const void*>& b) {
    std::unordered_set<const void*> built(g_con_log.begin(), g_con_log.end()), ended(g_des_log.begin(), g_des_log.end());
    if (con) for (auto p : b) if (!a.count(p) && !built.count(p)) { err("a-construct", "an element came to live in a slot that was not constructed through the allocator"); return; }
    if (des) for (auto p : a) if (!b.count(p) && !ended.count(p)) { err("a-destroy", "an element left a slot that was not destroyed through the allocator"); return; }
    R.checks++;
  }
  static void balance(size_t total) {
    World& w = W();
    if (con && des && w.aconstruct - w.adestroy != total) err("a-balance", "construct was called %llu times and destroy %llu times, the sequences hold %zu elements", (unsigned long long)w.aconstruct, (unsigned long long)w.adestroy, total);
  }
  static void one(State<C>& s, const Op<S>& o) {
    op_name(o);
    S& c = s.fresh(); R.transitions++;
    std::unordered_set<const void*> before, after, none;
    occupied(before, c); if (s.pair) occupied(before, s.second());
    g_need_con = con; g_need_des = des;
    g_con_log.clear(); g_des_log.clear(); g_log_on = true;
    o.run(c);
    g_log_on = false;
    S* d = (o.flags & O_CTOR) ? &Maker<C>::at(2) : s.pair ? &s.second() : nullptr;
    size_t total = c.size() + (d ? d->size() : 0);
    occupied(after, c); if (d) occupied(after, *d);
    changed(before, after); balance(total);
    if (!g_err.set) {
      strcpy(R.extra, "then destruction");
      g_con_log.clear(); g_des_log.clear(); g_log_on = true;
      if (R.transitions & 1) c.clear();
      c.~S(); if (d) d->~S();
      g_log_on = false;
      changed(after, none); balance(0);
    }
    g_need_con = g_need_des = false;
    settle();
  }
  static void visit(State<C>& s) { all_ops<C>(s, [&](const Op<S>& o) { one(s, o); }); }
};
template <class C> struct VP {
  static void visit(State<C>& s) { ops_pair<C>(s, [&](const Op<typename C::Seq>& o) { V<C>::one(s, o); }); }
};
// The same when the operation fails.
template <class C> struct VF {
  using S = typename C::Seq; using B = V<C>;
  static void visit(State<C>& s) {
    every_failure<C>(s, [&](const Op<S>& o) {
      S& c = s.seq(0); S* d = s.pair ? &s.second() : nullptr;
      B::balance(c.size() + (d ? d->size() : 0));
      if (g_err.set) return;
      strcat(R.extra, " then destruction");
      c.~S(); if (d) d->~S();
      R.checks++;
      B::balance(0);
    });
  }
};
template <class C> void failures(const char* name, size_t q, size_t t) { Explorer<C> e; e.explore(name, R.thorough() ? t : q, VF<C>::visit); }
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta = 1, uint32_t tb = 1) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, ta, tb);
}
constexpr int AB = A_CON | A_DES;
void go() {
  focus({"a-"});
#if PART == 1
  BFS("u32 both 1,3", 18, 23, Cfg<uint32_t, 1, 3, AB>);
  BFS("u32 both 3,3", 18, 22, Cfg<uint32_t, 3, 3, AB>);
#elif PART == 2
  BFS("Trk both 2,3", 11, 13, Cfg<TF, 2, 3, AB>);
  BFS("Trk construct only 4,3", 14, 18, Cfg<TF, 4, 3, A_CON>);
  BFS("Trk destroy only 3,3", 15, 19, Cfg<TF, 3, 3, A_DES>);
#elif PART == 3
  BFS("u32 construct only 3,3", 16, 20, Cfg<uint32_t, 3, 3, A_CON>);
  BFS("u32 destroy only 3,3", 16, 20, Cfg<uint32_t, 3, 3, A_DES>);
  BFS("u32 destroy only 2,3", 10, 12, Cfg<uint32_t, 2, 3, A_DES>);
#elif PART == 4
  BFS("move-only both 5,4", 15, 19, Cfg<TM, 5, 4, AB>);
  BFS("copy-only both 3,3", 14, 18, Cfg<TC, 3, 3, AB>);
  BFS("24 bytes both 4,3", 14, 18, Cfg<Tv<24>, 4, 3, AB>);
#elif PART == 5
  FROM("u32 both 8,6", fills({20, 45, 70}), 1, 1, Cfg<uint32_t, 8, 6, AB>);
  FROM("u64 both default", fills({127, 129, 400, 1500, 6100}), 0, 0, Cfg<uint64_t, 128, 47, AB, 1024, 768>);
  pairs<Cfg<uint32_t, 2, 3, AB>>("pairs u32 2,3", 5, 7);
#elif PART == 6
  pairs<Cfg<TF, 3, 3, AB>>("pairs Trk 3,3", 7, 9);
  pairs<Cfg<uint32_t, 2, 3, AB | A_STATE | A_SWP>>("pairs of two allocators u32 2,3", 5, 6, 1, 2);
  pairs<Cfg<TM, 1, 3, AB | A_STATE | A_SWP | A_CMA>>("pairs of two allocators move-only 1,3", 7, 9, 1, 2);
#elif PART == 7
  failures<Cfg<TX, 1, 3, AB>>("failures 1,3", 11, 14);
  failures<Cfg<TX, 2, 3, AB>>("failures 2,3", 8, 10);
  failures<Cfg<TC, 3, 3, AB>>("failures copy-only 3,3", 10, 13);
  failures<Cfg<uint32_t, 4, 3, AB>>("failures u32 4,3", 13, 17);
  failures<Cfg<TM, 5, 4, AB>>("failures move-only 5,4", 12, 16);
#endif
}
MC_MAIN(go())
