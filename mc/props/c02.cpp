// parts: 9
// rule: in every state, every insertion of n copies, range or list at every position, every erasable range, assign, resize and clear, and every constructor is run and compared with an ideal list
// C02: bulk edits and constructors behave like an ideal sequence.
#include "../suite.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 3;
  static void visit(State<C>& s) {
    auto f = [&](const Op<typename C::Seq>& o) { run_plain<C>(s, o, s.n <= 16); };
    std::vector<size_t> ks = s.n <= 24 ? std::vector<size_t>{0, 1, 2, 3, 5, 8} : s.n <= 160 ? std::vector<size_t>{0, 1, 4, C::segmax + 1} : std::vector<size_t>{0, 3, C::segmax + 1};
    if (s.n > 5000) ks = {0, 3};
    ops_insert_bulk<C>(s, ks, f);
    ops_erase_range<C>(s, f);
    std::vector<size_t> as;
    if (s.n <= 24) as = upto(s.n + 6);
    else as = {0, 1, s.n / 2, s.n - 1, s.n, s.n + 1, s.n + C::segmax * (s.n < 5000 ? 2 : 0) + 3};
    ops_assign<C>(s, as, f);
    std::vector<size_t> cs = upto(40);
    if (C::segmax > 20) for (size_t k : {C::segmax - 1, C::segmax, C::segmax + 1, 3 * C::segmax}) if (k < 7000) cs.push_back(k);
    ops_ctor<C>(s, cs, f);
    // a long insertion in one go
    if (s.n <= 4) { std::vector<size_t> big{17, 40, 90}; ops_insert_bulk<C>(s, big, f); }
  }
};
// long arguments: counts that no longer fit 8 or 16 bits
template <class C> struct VL {
  static void visit(State<C>& s) {
    auto f = [&](const Op<typename C::Seq>& o) { run_plain<C>(s, o, false); };
    std::vector<size_t> ks{255, 256, 257, 65535, 65536, 65537, 70001};
    if (R.thorough()) ks.push_back(200000);
    ops_insert_bulk<C>(s, ks, f);
    ops_assign<C>(s, ks, f);
    ops_ctor<C>(s, ks, f);
  }
};
void longer() {
#if PART == 9
  from<Cfg<uint32_t, 64, 47, 0, 256, 768>>("long arguments u32", fills({1, 65}, false), 0, 0, VL<Cfg<uint32_t, 64, 47, 0, 256, 768>>::visit);
  from<Cfg<uint16_t, 65536, 3, 0, 131072, 0>>("long arguments long block u16", fills({300}, false), 0, 0, VL<Cfg<uint16_t, 65536, 3, 0, 131072, 0>>::visit);
  from<Cfg<TM, 5, 4>>("long arguments move-only", fills({6}, false), 0, 0, VL<Cfg<TM, 5, 4>>::visit);
#endif
}
MC_MAIN(suite<V>(), longer())
