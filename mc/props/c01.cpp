// parts: 8
// rule: breadth-first search over every tree shape the real container reaches by single insertions and erasures up to the bound of each configuration; in every state every single-element insertion, emplacement, push, erasure and pop at every position is run on the restored memory image and compared with an ideal list; every state is also rebuilt by replaying its whole history
// C01: single-element edits behave like an ideal sequence.
#include "../suite.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 0;
  static void visit(State<C>& s) {
    auto f = [&](const Op<typename C::Seq>& o) { run_plain<C>(s, o, s.n <= 24); };
    ops_single<C>(s, f);
    ops_erase1<C>(s, f);
  }
};
MC_MAIN(suite<V>())
