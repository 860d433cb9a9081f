// parts: 8
// rule: blocks and bytes held are compared with what half-full blocks need, in every state, after every operation in it, and after every step of every macro history
// assume: the header of an index node is at most 16 bytes and a child takes 16 (64-bit sizes and pointers)
// C08: memory stays proportional to contents and honours the targets.
#include "../shape.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq;
  static void one(State<C>& s, const Op<S>& o) {
    op_name(o);
    S& c = s.fresh(); R.transitions++;
    o.run(c);
    S* d = (o.flags & O_CTOR) ? &Maker<C>::at(2) : s.pair ? &s.second() : nullptr;
    memory_ok<C>({size_t(c.size()), size_t(d ? d->size() : 0)});
    // destruction returns everything; so does clearing, before it
    if (R.transitions % 2) { c.clear(); memory_ok<C>({0, size_t(d ? d->size() : 0)}); }
    c.~S(); if (d) d->~S();
    World& w = W();
    if (w.live_blocks[kSeg] || w.live_blocks[kNode] || w.live_bytes[kSeg] || w.live_bytes[kNode])
      err("mem-held", "destruction leaves %lld element blocks and %lld index nodes", (long long)w.live_blocks[kSeg], (long long)w.live_blocks[kNode]);
    settle();
  }
  static void visit(State<C>& s) {
    if constexpr (C::rebuild) return;
    else {
      set_op("state"); s.fresh(); memory_ok<C>({s.n}); settle();
      outcome("blocks " + std::to_string(W().live_blocks[kSeg]));
      auto f = [&](const Op<S>& o) { one(s, o); };
      ops_single<C>(s, f); ops_erase1<C>(s, f); ops_erase_range<C>(s, f);
      ops_assign<C>(s, {0, 1, s.n / 2, s.n, s.n + 1, s.n + 7}, f);
      if (s.n > 5000) return;
      ops_insert_bulk<C>(s, s.n <= 24 ? std::vector<size_t>{1, 2, 3, 7} : std::vector<size_t>{C::segmax + 1}, f);
      if (s.n <= 24) ops_algo<C>(s, f);
      ops_ctor<C>(s, upto(40), f);
    }
  }
};
template <class C> struct VP {
  static void visit(State<C>& s) { auto f = [&](const Op<typename C::Seq>& o) { V<C>::one(s, o); }; ops_pair<C>(s, f); }
};
template <class C> void macro(const char* name, unsigned q, unsigned t, size_t chunk, size_t start) {
  macro_histories<C>(name, R.thorough() ? t : q, chunk, start, [](typename C::Seq& c) { memory_ok<C>({size_t(c.size())}); });
}
// The limits on single requests, over many element sizes and targets.
template <class C> void sizes(const char* name) {
  macro_histories<C>(name, 1, 3 * C::segmax + 5, 2 * C::segmax + 3, [](typename C::Seq& c) { memory_ok<C>({size_t(c.size())}); });
}
void go() {
  focus({"mem-"});
  suite<V>();
#if PART == 4
  { using C = Cfg<TF, 2, 3>; Explorer<C> e; e.explore_pairs("pairs 2,3", 5, 5, VP<C>::visit); }
#elif PART == 5
  macro<Cfg<uint32_t, 1, 3>>("macro 1,3", 3, 4, 60, 0);
  macro<Cfg<uint32_t, 2, 3>>("macro 2,3", 3, 4, 90, 200);
#elif PART == 7
  macro<Cfg<uint32_t, 3, 4>>("macro 3,4", 3, 4, 150, 300);
  macro<Cfg<uint32_t, 4, 5>>("macro 4,5", 3, 4, 200, 300);
  macro<Cfg<uint32_t, 8, 6>>("macro 8,6", 3, 4, 300, 900);
#elif PART == 8
  macro<Cfg<uint32_t, 5, 3>>("macro 5,3", 3, 4, 200, 300);
  macro<Cfg<uint32_t, 1, 8>>("macro 1,8", 3, 4, 150, 200);
  sizes<Cfg<uint8_t, 1, 3, 0, 0, 0>>("sizes 1 byte, no targets");
  sizes<Cfg<uint8_t, 7, 3, 0, 7, 70>>("sizes 1 byte, 7/70");
  sizes<Cfg<uint32_t, 2, 4, 0, 11, 80>>("sizes 4 bytes, 11/80");
  sizes<Cfg<uint32_t, 1, 4, 0, 3, 95>>("sizes 4 bytes, 3/95");
  sizes<Cfg<uint64_t, 12, 5, 0, 100, 100>>("sizes 8 bytes, 100/100");
  sizes<Cfg<Tv<24>, 42, 47, 0, 1024, 768>>("sizes 24 bytes, defaults");
  sizes<Cfg<Tv<24>, 1, 3, 0, 20, 63>>("sizes 24 bytes, 20/63");
  sizes<Cfg<Tv<1500>, 1, 47, 0, 1024, 768>>("sizes 1500 bytes, defaults");
  sizes<Cfg<Tv<1000>, 1, 47, 0, 1024, 768>>("sizes 1000 bytes, defaults");
  sizes<Cfg<Tv<513>, 1, 47, 0, 1024, 768>>("sizes 513 bytes, defaults");
  sizes<Cfg<Tv<3>, 341, 31, 0, 1024, 512>>("sizes 3 bytes, 1024/512");
#endif
}
MC_MAIN(go())
