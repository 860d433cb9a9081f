// parts: 7
// rule: every form of splice runs for every pair of states, every position and every range (all positions of sequences up to 160 elements); both sequences are compared with the ideal lists, the returned state is walked in both directions, and elements that were not designated keep their identity where they are counted
// C20: splice transfers exactly the designated elements.
#include "../faults.hpp"
using namespace mc;
template <class C> struct VP {
  using S = typename C::Seq; using T = typename C::T;
  static void visit(State<C>& s) {
    bool stop = false;
    ops_pair<C>(s, [&](const Op<S>& o) {
      if (stop || strncmp(o.name, "splice", 6)) return;
      op_name(o);
      S& c = s.fresh(); S& d = s.second();
      R.transitions++;
      World& w = W();
      uint64_t cp = w.copies + w.cassigns, dl = w.dflt + w.valctor;
      o.run(c);
      if (El<T>::tracked && El<T>::movable && w.copies + w.cassigns != cp) err("copied", "%llu elements were copied", (unsigned long long)(w.copies + w.cassigns - cp));
      if (El<T>::tracked && w.dflt + w.valctor != dl) err("made", "elements were made anew");
      if (full_contents(c, *o.expect)) full_contents(d, *o.expect2, "source");
      monitors<C>(o.expect->size() + o.expect2->size());
      if (settle()) { stop = true; return; }
      // both go on working
      if (o.na <= 1 || (o.b + o.c) % 5 == 0) { usable_now<C>(c, "destination"); usable_now<C>(d, "source"); if (settle()) stop = true; }
    });
  }
};
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta = 1, uint32_t tb = 1) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, ta, tb);
}
template <class C> void pairs_from(const char* name, std::vector<std::vector<BOp>> f) { Explorer<C> e; e.explore_pairs_from(name, f, VP<C>::visit); }
void go() {
  focus({"life-", "alloc-"});
#if PART == 1
  pairs<Cfg<TF, 2, 3>>("pairs Trk 2,3", 6, 7);
#elif PART == 2
  pairs<Cfg<TM, 3, 3>>("pairs move-only 3,3", 8, 10);
#elif PART == 3
  pairs<Cfg<TF, 1, 3>>("pairs Trk 1,3", 9, 11);
#elif PART == 4
  pairs<Cfg<uint32_t, 2, 3>>("pairs u32 2,3", 6, 7);
  pairs<Cfg<TC, 2, 3>>("pairs copy-only 2,3", 5, 6);
#elif PART == 5
  pairs<Cfg<TF, 2, 3, A_STATE>>("unequal allocators Trk 2,3", 5, 7, 1, 2);
  pairs<Cfg<Tv<24>, 4, 3>>("pairs 24 bytes 4,3", 8, 10);
  pairs<Cfg<uint32_t, 3, 4, A_STATE | A_CMA | A_CCA | A_SWP>>("unequal propagating allocators u32 3,4", 6, 8, 1, 2);
#elif PART == 6
  pairs_from<Cfg<TF, 4, 4>>("large pairs Trk 4,4", fills({9, 21}));
  pairs_from<Cfg<uint32_t, 2, 3>>("large pairs u32 2,3", fills({5, 14, 22}));
  pairs_from<Cfg<Tv<24>, 42, 47, 0, 1024, 768>>("default 24 bytes", fills({42, 43, 90}, false));
#elif PART == 7
  pairs_from<Cfg<uint32_t, 64, 47, 0, 256, 768>>("long pairs u32", {{{'B', 5, 0}}, {{'B', 66000, 0}}});
  pairs_from<Cfg<uint16_t, 65536, 3, 0, 131072, 0>>("long pairs long block u16", {{{'B', 300, 0}}, {{'B', 70000, 0}}});
#endif
}
MC_MAIN(go())
