// parts: 9
// rule: in every state (and pair of states), every bulk operation, constructor and algorithm is run once for each memory request, element construction, copy, copy assignment, comparison and source access it performs, with that one failing
// assume: moving an existing element does not throw (C29 covers throwing moves)
// C15: a failed bulk operation leaves a valid sequence and leaks nothing.
#include "../faults.hpp"
using namespace mc;
constexpr uint32_t kMask = F_ALLOC | F_COPY | F_VALUE | F_ASSIGN | F_PRED | F_ITER;
template <class C> struct V {
  static constexpr int less = 4;
  using S = typename C::Seq; using T = typename C::T;
  static void one(State<C>& s, const Op<S>& o, const std::vector<int64_t>* listed = nullptr) {
    if (o.flags & O_SINGLE) return;
    int64_t n = count_faults<C>(s, o, kMask);
    g_err.set = false;
    // long operations: every request up to 60, then every third, then every seventeenth
    for (int64_t k = 0; k < n; k += (R.thorough() || listed || k < 60) ? 1 : k < 150 ? 3 : 17) {
      if (listed && std::find(listed->begin(), listed->end(), k) == listed->end() && k < n - 2) continue;
      bool threw = run_fault<C>(s, o, kMask, k);
      S& c = s.seq(0);
      if (!threw) { err("swallowed", "the exception did not come out"); settle(); return; }
      R.checks++;
      size_t cap = s.n + s.n2 + size_t(o.inserted > 0 ? o.inserted : 0) + 1, total = 0;
      bool ok = sound(c, "edited", cap);
      total += c.size();
      if (ok && s.pair) { ok = sound(s.second(), "second", cap); total += s.second().size(); }
      if (ok && El<T>::tracked && W().live_elems != int64_t(total)) { err("leak", "after the failure %lld elements are alive, the sequences hold %zu", (long long)W().live_elems, total); ok = false; }
      if (ok) arena_check();
      if (ok && !g_err.set) {
        size_t m = c.size();
        if (o.flags & O_CTOR) {
          bool copying = strchr(o.name, '&') || strstr(o.name, "seq range");
          if (!same_contents(c, s.model, "source")) ok = false;
          (void)copying;
        } else if (o.flags & O_RESIZE) {
          if (!same_contents(c, s.model, "resize-not-undone")) ok = false;
        } else if (o.flags & O_INSERT) {
          // what was there before stays, in order, around the insertion point
          if (m < s.n) { err("outside", "after a failed insertion %zu of %zu elements are left", m, s.n); ok = false; }
          for (size_t i = 0; ok && i < s.n; ++i) {
            size_t at = i < size_t(o.pos) ? i : m - s.n + i;
            if (val(c[at]) != fold<T>(s.model[i])) { err("outside", "after a failed insertion at %ld element %zu of before is %u, it was %u", o.pos, i, val(c[at]), fold<T>(s.model[i])); ok = false; }
          }
        }
        outcome(m == s.n ? "size as before" : m > s.n ? "some inserted" : "some removed");
      }
      if (ok && !g_err.set && (k % 2 == 0 || n < 20)) ok = usable_now<C>(c, "edited") && (!s.pair || usable_now<C>(s.second(), "second"));
      if (ok && !g_err.set) { if (s.pair) no_leaks<C>({0, 1}, "after the failure"); else no_leaks<C>({0}, "after the failure"); }
      if (settle()) return;
    }
  }
  static void visit(State<C>& s) {
    if constexpr (C::rebuild) return;
    else {
      auto f = [&](const Op<S>& o) { one(s, o); };
      if (s.n <= 160) {
        ops_insert_bulk<C>(s, s.n <= 24 ? std::vector<size_t>{1, 2, 3, 6} : std::vector<size_t>{C::segmax + 1}, f);
        ops_assign<C>(s, {1, s.n / 2, s.n, s.n + 1, s.n + 5}, f);
        ops_algo<C>(s, f);
      } else ops_assign<C>(s, {s.n + 3}, f);
      ops_ctor<C>(s, {1, 2, 3, 4, 5, 8, 13, 20, 33}, f);
      if (s.n <= 2) { std::vector<size_t> big{20, 40}; ops_insert_bulk<C>(s, big, f); }
    }
  }
};
// long arguments: counts that no longer fit 8 or 16 bits, failing at the requests around those borders
template <class C> struct VL {
  static void visit(State<C>& s) {
    auto f = [&](const Op<typename C::Seq>& o) {
      static const std::vector<int64_t> at{0, 1, 2, 255, 256, 257, 300, 1000, 13000, 13500, 65535, 65536, 65537, 66000, 68000, 70000};
      V<C>::one(s, o, &at);
    };
    ops_insert_bulk<C>(s, {70001}, f);
    ops_assign<C>(s, {70001}, f);
    ops_ctor<C>(s, {70001}, f);
  }
};
template <class C> struct VP {
  static void visit(State<C>& s) { ops_pair<C>(s, [&](const Op<typename C::Seq>& o) { V<C>::one(s, o); }); }
};
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta = 1, uint32_t tb = 1) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, ta, tb);
}
void go() {
  focus({"life-", "alloc-"});
#if PART == 1
  BFS("Trk 1,3", 16, 20, Cfg<TF, 1, 3>);
#elif PART == 2
  BFS("Trk 2,3", 12, 14, Cfg<TF, 2, 3>);
  BFS("u32 4,3", 15, 19, Cfg<uint32_t, 4, 3>);
#elif PART == 3
  BFS("Trk 3,3", 16, 20, Cfg<TF, 3, 3>);
  BFS("move-only 2,3", 11, 13, Cfg<TM, 2, 3>);
#elif PART == 4
  BFS("u32 3,3", 16, 20, Cfg<uint32_t, 3, 3>);
  BFS("Trk 5,4", 17, 21, Cfg<TF, 5, 4>);
  BFS("construct/destroy 3,3", 14, 18, Cfg<TF, 3, 3, A_CON | A_DES>);
#elif PART == 5
  FROM("Trk 8,6", fills({20, 45}), 0, 1, Cfg<TF, 8, 6>);
  FROM("tall Trk 1,3", fills({40}), 0, 0, Cfg<TF, 1, 3>);
  FROM("default Trk", fills({64, 100, 200}), 0, 0, Cfg<TF, 64, 47, 0, 1024, 768>);
#elif PART == 6
  pairs<Cfg<TF, 2, 3>>("pairs 2,3", 4, 6);
  pairs<Cfg<TM, 1, 3>>("pairs move-only 1,3", 6, 8);
#elif PART == 7
  pairs<Cfg<TF, 3, 3>>("pairs 3,3", 6, 8);
  pairs<Cfg<uint32_t, 2, 3>>("pairs u32 2,3", 4, 6);
#elif PART == 8
  pairs<Cfg<TF, 2, 3, A_STATE>>("pairs of two allocators 2,3", 4, 6, 1, 2);
  pairs<Cfg<TF, 1, 3, A_STATE | A_CCA | A_CMA | A_SWP>>("pairs of two propagating allocators 1,3", 6, 8, 1, 2);
#elif PART == 9
  from<Cfg<TF, 64, 47, 0, 1024, 768>>("long arguments Trk", fills({65}, false), 0, 0, VL<Cfg<TF, 64, 47, 0, 1024, 768>>::visit);
  from<Cfg<uint32_t, 5, 4>>("long arguments u32 5,4", fills({6}, false), 0, 0, VL<Cfg<uint32_t, 5, 4>>::visit);
#endif
}
MC_MAIN(go())
