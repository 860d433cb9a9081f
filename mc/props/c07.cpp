// parts: 8
// rule: height() is compared with the height of a half-full tree in every state, after every operation in it, and after every step of every macro history
// C07: the tree stays balanced.
#include "../shape.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq;
  static void one(State<C>& s, const Op<S>& o) {
    op_name(o);
    S& c = s.fresh(); R.transitions++;
    o.run(c);
    height_ok<C>(c);
    if (o.flags & O_CTOR) { S& d = Maker<C>::at(2); height_ok<C>(d); d.~S(); }
    if (s.pair) height_ok<C>(s.second());
    settle();
  }
  static void visit(State<C>& s) {
    set_op("state"); height_ok<C>(s.fresh()); settle();
    outcome("height " + std::to_string(s.seq(0).height()));
    auto f = [&](const Op<S>& o) { one(s, o); };
    ops_single<C>(s, f); ops_erase1<C>(s, f); ops_erase_range<C>(s, f);
    if (s.n > 5000) return;
    ops_insert_bulk<C>(s, s.n <= 24 ? std::vector<size_t>{1, 2, 3, 7} : std::vector<size_t>{C::segmax + 1}, f);
    ops_assign<C>(s, {0, 1, s.n / 2, s.n, s.n + 1, s.n + 2 * C::segmax}, f);
    if (s.n <= 24) ops_algo<C>(s, f);
    ops_ctor<C>(s, upto(40), f);
  }
};
template <class C> struct VP {
  static void visit(State<C>& s) { auto f = [&](const Op<typename C::Seq>& o) { V<C>::one(s, o); }; ops_pair<C>(s, f); }
};
template <class C> void macro(const char* name, unsigned q, unsigned t, size_t chunk, size_t start) {
  macro_histories<C>(name, R.thorough() ? t : q, chunk, start, [](typename C::Seq& c) { height_ok<C>(c); });
}
void go() {
  suite<V>();
#if PART == 5
  { using C = Cfg<TF, 2, 3>; Explorer<C> e; e.explore_pairs("pairs 2,3", 5, 5, VP<C>::visit); }
  macro<Cfg<uint32_t, 1, 3>>("macro 1,3", 3, 4, 60, 0);
  macro<Cfg<uint32_t, 2, 3>>("macro 2,3", 3, 4, 90, 200);
#elif PART == 7
  macro<Cfg<uint32_t, 3, 4>>("macro 3,4", 3, 4, 150, 300);
  macro<Cfg<uint32_t, 4, 5>>("macro 4,5", 3, 4, 200, 300);
  macro<Cfg<uint32_t, 8, 6>>("macro 8,6", 3, 4, 300, 900);
#elif PART == 8
  macro<Cfg<uint32_t, 5, 3>>("macro 5,3", 3, 4, 200, 300);
  macro<Cfg<uint32_t, 1, 8>>("macro 1,8", 3, 4, 150, 200);
  macro<Cfg<uint64_t, 128, 47, 0, 1024, 768>>("macro default", 2, 3, 9000, 20000);
#endif
}
MC_MAIN(go())
