// parts: 6
// rule: in every state, every edit is run once for each element move or assignment it performs, with that one failing
// assume: throwing happens only in element moves, copies and assignments (allocation failures are C14 and C15)
// C29: a throwing element move leaves a destructible, leak-free sequence.
#include "../faults.hpp"
using namespace mc;
constexpr uint32_t kMask = F_MOVE | F_MASSIGN | F_COPY | F_ASSIGN;
template <class C> struct V {
  static constexpr int less = 0;
  using S = typename C::Seq;
  static void one(State<C>& s, const Op<S>& o) {
    int64_t n = count_faults<C>(s, o, kMask);
    g_err.set = false;
    for (int64_t k = 0; k < n; ++k) {
      bool threw = run_fault<C>(s, o, kMask, k);
      S& c = s.seq(0);
      if (!threw) { err("swallowed", "the exception did not come out"); settle(); return; }
      size_t cap = s.n + s.n2 + size_t(o.inserted > 0 ? o.inserted : 0) + 1;
      size_t total = 0;
      bool ok = sound(c, "edited", cap);
      total += c.size();
      if (ok && s.pair) { ok = sound(s.second(), "second", cap); total += s.second().size(); }
      if (ok && W().live_elems != int64_t(total)) { err("leak", "after the failure %lld elements are alive, the sequences hold %zu", (long long)W().live_elems, total); ok = false; }
      if (ok) arena_check();
      if (ok && !g_err.set && (k % 3 == 0 || n < 40)) ok = usable_now<C>(c, "edited") && (!s.pair || usable_now<C>(s.second(), "second"));
      if (ok && !g_err.set) { if (s.pair) no_leaks<C>({0, 1}, "after the failure"); else no_leaks<C>({0}, "after the failure"); }
      if (settle()) return;
    }
    outcome(n == 0 ? "no element moved" : n < 4 ? "1-3 failing moves" : "more failing moves");
  }
  static void visit(State<C>& s) {
    auto f = [&](const Op<S>& o) { one(s, o); };
    ops_single<C>(s, f);
    ops_erase1<C>(s, f);
    if (s.n <= 12) {
      ops_erase_range<C>(s, f);
      ops_insert_bulk<C>(s, {1, 2, 4}, f);
      ops_assign<C>(s, {0, 1, s.n / 2, s.n + 1, s.n + 3}, f);
      ops_algo<C>(s, f);
    } else if (s.n <= 40) {
      ops_insert_bulk<C>(s, {C::segmax + 1}, f);
    }
  }
};
template <class C> struct VP {
  static void visit(State<C>& s) { auto f = [&](const Op<typename C::Seq>& o) { V<C>::one(s, o); }; ops_pair<C>(s, f); }
};
void go() {
  focus({"life-", "alloc-"});
#if PART == 1
  BFS("throwing 1,3", 12, 15, Cfg<TX, 1, 3>);
  BFS("throwing 3,3", 13, 16, Cfg<TX, 3, 3>);
#elif PART == 2
  BFS("throwing 2,3", 10, 12, Cfg<TX, 2, 3>);
  BFS("throwing 5,3", 14, 18, Cfg<TX, 5, 3>);
#elif PART == 3
  BFS("throwing 4,3", 14, 17, Cfg<TX, 4, 3>);
  BFS("throwing 4,3 construct/destroy", 9, 13, Cfg<TX, 4, 3, A_CON | A_DES>);
  BFS("throwing 6,4", 16, 20, Cfg<TX, 6, 4>);
#elif PART == 4
  BFS("copy-only 2,3", 9, 11, Cfg<TC, 2, 3>);
  BFS("copy-only 3,3", 11, 14, Cfg<TC, 3, 3>);
  BFS("copy-only 5,4", 12, 16, Cfg<TC, 5, 4>);
#elif PART == 5
  FROM("throwing 8,5", fills({18, 40}), 1, 1, Cfg<TX, 8, 5>);
  FROM("throwing tall 1,3", fills({40}), 0, 1, Cfg<TX, 1, 3>);
  FROM("throwing tall 3,3", fills({40}), 0, 1, Cfg<TX, 3, 3>);
#elif PART == 6
  { using C = Cfg<TX, 2, 3>; Explorer<C> e; size_t n = R.thorough() ? 5 : 4; e.explore_pairs("pair throwing 2,3", n, n, VP<C>::visit); }
  { using C = Cfg<TX, 3, 3>; Explorer<C> e; size_t n = R.thorough() ? 6 : 4; e.explore_pairs("pair throwing 3,3", n, n, VP<C>::visit); }
#endif
}
MC_MAIN(go())
