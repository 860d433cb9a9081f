// parts: 8
// rule: in every state, every position reached in up to 27 ways (found, jumped to, stepped to, through reverse iterators, from block to block, assigned, swapped, converted), judged against a freshly found one, and at each such handle every kind of edit and splice, whose result and returned iterator are those of the position
// C32: a position serves equally well however it was reached.
#include "../handles.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 4;
  static void visit(State<C>& s) { Handles<C>::sweep(s, s.n <= 30 ? 160 : 8, s.n <= 2000); }
};
MC_MAIN(suite<V>())
