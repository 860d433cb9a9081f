// parts: 14
// asan: 11 12 13 14
// rule: every block carries its allocator, type, count and guard bytes; each operation of the catalogue runs in every state, with one allocator and with pairs of unequal allocators, and then everything is destroyed; the same again with each request an operation makes of its environment (memory, element construction, copying, moving, assignment, comparison, source iterators) failing, one at a time
// C12: every allocation is returned once, to the right allocator, same size.
#include "../suite.hpp"
#include "../faults.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq;
  static void one(State<C>& s, const Op<S>& o) {
    op_name(o);
    S& c = s.fresh(); R.transitions++;
    o.run(c);
    S* d = (o.flags & O_CTOR) ? &Maker<C>::at(2) : s.pair ? &s.second() : nullptr;
    R.checks++;
    arena_check();
    if (settle()) return;
    fence();
    strcpy(R.extra, "then destruction");
    if (R.transitions & 1) { c.~S(); if (d) d->~S(); } else { if (d) d->~S(); c.clear(); c.~S(); }
    arena_check();
    World& w = W();
    if (w.live_blocks[kSeg] || w.live_blocks[kNode] || w.live_blocks[kOther]) err("alloc-kept", "%lld element blocks and %lld index nodes were never returned", (long long)w.live_blocks[kSeg], (long long)w.live_blocks[kNode]);
    settle();
  }
  static void visit(State<C>& s) { all_ops<C>(s, [&](const Op<S>& o) { one(s, o); }); }
};
template <class C> struct VP {
  static void visit(State<C>& s) {
    // (moving storage between unequal allocators by swap is undefined unless the trait says so)
    bool uneq = (C::pol & A_STATE) && s.tag != s.tag2 && !(C::pol & A_SWP);
    ops_pair<C>(s, [&](const Op<typename C::Seq>& o) { if (uneq && !strncmp(o.name, "swap", 4)) return; V<C>::one(s, o); });
  }
};
// The same when the operation fails.
template <class C> struct VF {
  using S = typename C::Seq;
  static void visit(State<C>& s) {
    every_failure<C>(s, [&](const Op<S>&) {
      R.checks++;
      arena_check();
      if (g_err.set) return;
      fence();
      strcat(R.extra, " then destruction");
      s.seq(0).~S(); if (s.pair) s.second().~S();
      arena_check();
      World& w = W();
      if (w.live_blocks[kSeg] || w.live_blocks[kNode] || w.live_blocks[kOther]) err("alloc-kept", "%lld element blocks and %lld index nodes were never returned", (long long)w.live_blocks[kSeg], (long long)w.live_blocks[kNode]);
    });
  }
};
template <class C> void failures(const char* name, size_t q, size_t t) { Explorer<C> e; e.explore(name, R.thorough() ? t : q, VF<C>::visit); }
template <class C> void pair_failures(const char* name, size_t q, size_t t, uint32_t ta, uint32_t tb) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VF<C>::visit, ta, tb);
}
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta, uint32_t tb) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, ta, tb);
}
// Reading: every position reached from every other, and comparisons of sequences.
template <class C> struct VR {
  using S = typename C::Seq;
  static void visit(State<C>& s) {
    S& c = s.fresh(); const S& k = c; R.transitions++;
    long n = long(s.n); uint64_t sum = 0;
    for (long i = 0; i <= n; ++i) {
      set_op("reading from", i);
      auto it = k.nth(size_t(i));
      if (i < n) { sum += val(*it) + val(c[size_t(i)]) + val(c.at(size_t(i))); }
      for (long j = 0; j <= n; ++j) { auto x = it; x += j - i; if (j < n) sum += val(*x); auto y = it + (j - i); sum += y - x; if (j < n) sum += val(it[j - i]); }
      auto x = it; if (k.index_of(x) > size_t(x.current() - x.begin())) { x.move_before_segment(); sum += val(*x); x.move_after_segment(); sum += x == it; }
      if (i < n) for (auto y = it.after_segment();; y.move_after_segment()) { if (y == k.end()) break; sum += val(*y); }
      if (i > 0 && n > 0) { auto y = it; --y; for (auto z = y; k.index_of(z) >= size_t(z.current() - z.begin()) + 1; z.move_before_segment()) sum += val(*z); }
      R.checks++;
    }
    for (auto r = k.rbegin(); r != k.rend(); ++r) sum += val(*r);
    set_op("comparisons", 0);
    if constexpr (El<typename C::T>::cmp) {
      S d(k); sum += d == k;
      for (long i = 0; i < 2 && !d.empty(); ++i) { d.pop_back(); sum += (d == k) + (d != k) + (d < k) + (d > k) + (d <= k) + (d >= k) + (k < d) + (k == d); }
    }
    volatile uint64_t keep = sum; (void)keep;
    settle();
  }
};
template <class C> void read_all(const char* name, size_t q, size_t t) { Explorer<C> e; e.explore(name, R.thorough() ? t : q, VR<C>::visit); }
// The default allocator: the heap itself watches.
template <class C> void heap(const char* name, size_t q, size_t t) {
  Explorer<C> e; e.explore(name, R.thorough() ? t : q, [](State<C>& s) { all_ops<C>(s, [&](const Op<typename C::Seq>& o) { run_plain<C>(s, o); }); });
}
void go() {
  focus({"alloc-"});
#if PART == 1
  BFS("u32 1,3", 21, 26, Cfg<uint32_t, 1, 3, A_STATE>);
#elif PART == 2
  BFS("u32 2,3", 12, 14, Cfg<uint32_t, 2, 3, A_STATE>);
  BFS("Trk 5,4", 17, 22, Cfg<TF, 5, 4, A_STATE>);
#elif PART == 3
  BFS("Trk 3,3", 18, 22, Cfg<TF, 3, 3, A_STATE>);
  BFS("u32 4,3", 15, 19, Cfg<uint32_t, 4, 3, A_STATE>);
#elif PART == 4
  FROM("u32 8,6", fills({20, 45, 70}), 1, 1, Cfg<uint32_t, 8, 6, A_STATE>);
  FROM("tall u32 1,3", fills({40, 64}), 0, 1, Cfg<uint32_t, 1, 3, A_STATE>);
  FROM("default u64", fills({127, 128, 129, 1000, 6100}), 0, 0, Cfg<uint64_t, 128, 47, A_STATE, 1024, 768>);
  FROM("long block u16", fills({300, 70000}, false), 0, 0, Cfg<uint16_t, 65536, 3, A_STATE, 131072, 0>);
#elif PART == 5
  pairs<Cfg<uint32_t, 2, 3, A_STATE>>("one allocator 2,3", 6, 8, 1, 1);
  pairs<Cfg<uint32_t, 2, 3, A_STATE>>("two allocators 2,3", 6, 8, 1, 2);
#elif PART == 6
  pairs<Cfg<uint32_t, 2, 3, A_STATE | A_CCA | A_CMA | A_SWP>>("all propagate 2,3", 6, 8, 1, 2);
  pairs<Cfg<uint32_t, 3, 3, A_STATE | A_CMA>>("move propagates 3,3", 9, 12, 1, 2);
#elif PART == 7
  pairs<Cfg<uint32_t, 1, 3, A_STATE | A_CCA>>("copy propagates 1,3", 10, 13, 1, 2);
  pairs<Cfg<uint32_t, 4, 3, A_STATE | A_SWP>>("swap propagates 4,3", 9, 12, 1, 2);
#elif PART == 8
  pairs<Cfg<TM, 2, 3, A_STATE>>("two allocators move-only 2,3", 5, 7, 1, 2);
  pairs<Cfg<TF, 3, 3, A_STATE | A_SEL | A_CCA>>("select, copy propagates 3,3", 9, 11, 1, 2);
  pairs<Cfg<TF, 1, 3, A_STATE>>("two allocators 1,3", 10, 13, 1, 2);
#elif PART == 9
  failures<Cfg<TX, 1, 3, A_STATE>>("failures 1,3", 12, 15);
  failures<Cfg<TX, 2, 3, A_STATE>>("failures 2,3", 9, 11);
  failures<Cfg<TM, 3, 3, A_STATE>>("failures move-only 3,3", 11, 14);
  failures<Cfg<TX, 4, 3, A_STATE>>("failures 4,3", 12, 15);
#elif PART == 10
  failures<Cfg<uint32_t, 3, 3, A_STATE>>("failures u32 3,3", 15, 19);
  failures<Cfg<TC, 5, 4, A_STATE>>("failures copy-only 5,4", 12, 16);
  pair_failures<Cfg<TX, 2, 3, A_STATE>>("failures of two allocators 2,3", 3, 4, 1, 2);
  pair_failures<Cfg<TX, 3, 3, A_STATE | A_CCA | A_CMA | A_SWP>>("failures, all propagate 3,3", 4, 5, 1, 2);
#elif PART == 11
  // From here on under AddressSanitizer: reads count, too, and whatever is not inside a block that
  // was asked for is off limits.
  BFS("fenced u32 2,3", 12, 13, Cfg<uint32_t, 2, 3, A_STATE>);
  BFS("fenced 24 bytes 3,3", 17, 20, Cfg<Tv<24>, 3, 3, A_STATE>);
  read_all<Cfg<uint32_t, 1, 3, A_STATE>>("fenced reading 1,3", 20, 25);
#elif PART == 12
  BFS("fenced Trk 1,3", 20, 23, Cfg<TF, 1, 3, A_STATE>);
  BFS("fenced bytes 5,4", 18, 22, Cfg<uint8_t, 5, 4, A_STATE>);
  read_all<Cfg<TF, 3, 4, A_STATE>>("fenced reading 3,4", 22, 27);
#elif PART == 13
  pairs<Cfg<uint32_t, 3, 3, A_STATE>>("fenced, two allocators 3,3", 5, 7, 1, 2);
  pairs<Cfg<TF, 2, 3, A_STATE | A_CCA | A_CMA | A_SWP>>("fenced, all propagate 2,3", 4, 6, 1, 2);
  failures<Cfg<TX, 2, 3, A_STATE>>("fenced failures 2,3", 7, 9);
#elif PART == 14
  FROM("fenced default u64", fills({127, 128, 129, 1000, 6100}, false), 0, 0, Cfg<uint64_t, 128, 47, A_STATE, 1024, 768>);
  heap<StdCfg<uint64_t, 2, 3>>("heap u64 2,3", 10, 12);
  heap<StdCfg<std::string, 3, 3>>("heap string 3,3", 9, 12);
  read_all<StdCfg<std::string, 2, 3>>("heap reading 2,3", 10, 13);
#endif
}
MC_MAIN(go())
