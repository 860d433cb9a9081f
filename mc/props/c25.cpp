// parts: 6
// minimal: base moveonly copyonly nodefault nocompare eqonly ltonly hostile anylike nonew explicitonly listlike
// rule: every operation in every state is run with elements that count copies and moves (movable, move-only, copy-only, without default constructor and comparison, with throwing moves, with address-of and comma operators that report their use); programs that use the container with element types that offer only what is needed must compile and run
// C25: element types need only what an operation uses; moves never copy.
#include "../suite.hpp"
using namespace mc;
// How many copies an operation may make: at least lo, at most hi.
struct Range { uint64_t lo, hi; };
template <class C> Range copies_due(State<C>& s, const char* nm, long a, long b) {
  auto is = [&](const char* x) { return !strcmp(nm, x); };
  auto k = [](uint64_t n) { return Range{n, n}; };
  if (strstr(nm, "const T&")) return k(1);
  if (is("insert(count,value)")) return {uint64_t(b), uint64_t(b) + 1};
  if (is("insert(range)") || is("insert(list)")) return k(uint64_t(b));
  if (is("assign(count,value)") || is("seq(count,value)")) return {uint64_t(a), uint64_t(a) + 1};
  if (is("assign(range)") || is("assign(list)") || is("= list") || is("seq(range)") || is("seq(list)")) return k(uint64_t(a));
  if (is("resize(count,value)")) { uint64_t g = uint64_t(a) > s.n ? uint64_t(a) - s.n : 0; return {g, g + 1}; }
  if (!strncmp(nm, "seq(const seq&", 14) || is("seq(seq range)") || is("seq(reverse seq range)")) return k(s.n);
  if (is("= const seq&") || is("assign(other range)") || is("insert(other range)")) return k(s.n2);
  if (is("remove(value)")) return {0, 1};
  return {0, 0};
}
template <class C> struct V {
  static constexpr int less = 3;
  using S = typename C::Seq; using T = typename C::T;
  static bool one(State<C>& s, const Op<S>& o) {
    op_name(o);
    S& c = s.fresh(); R.transitions++;
    World& w = W();
    uint64_t c0 = w.copies + w.cassigns;
    o.run(c);
    uint64_t made = w.copies + w.cassigns - c0;
    if (El<T>::movable) {
      auto due = copies_due<C>(s, o.name, o.a, o.b);
      if (made < due.lo || made > due.hi) err("copied", "%llu elements were copied, expected %llu", (unsigned long long)made, (unsigned long long)due.hi);
    }
    same_contents(c, *o.expect);
    // between unequal allocators a move assignment moves the elements and says nothing of the source
    bool left = s.pair && s.tag != s.tag2 && !strcmp(o.name, "= seq&&");
    if (o.expect2 && !left) same_contents(Maker<C>::at((o.flags & O_CTOR) ? 2 : 1), *o.expect2, "other-contents");
    monitors<C>(o.expect->size() + (left ? s.n2 : o.expect2 ? o.expect2->size() : s.pair ? s.n2 : 0));
    return !settle();
  }
  static void visit(State<C>& s) {
    bool stop = false;
    auto f = [&](const Op<S>& o) { if (!stop && !(s.tag != s.tag2 && s.pair && strstr(o.name, "swap")) && !one(s, o)) stop = true; };
    if (s.pair) ops_pair<C>(s, f); else all_ops<C>(s, f);
    if (stop || s.pair) return;
    // arguments of emplace are forwarded, not copied
    if constexpr (El<T>::copyable && El<T>::movable)
      for (size_t p : few_positions(s.n + 1, C::segmax, 8, 16))
        for (int way = 0; way < 6; ++way) {
          set_op(way == 0 ? "emplace(lvalue)" : way == 1 ? "emplace(rvalue)" : way == 2 ? "emplace(parts)" : way == 3 ? "emplace_back(lvalue)" : way == 4 ? "emplace_front(lvalue)" : "emplace_back(parts)", long(p));
          S& c = s.fresh(); R.transitions++;
          Tmp<T> v(kNew);
          uint64_t c0 = W().copies + W().cassigns;
          switch (way) {
            case 0: c.emplace(c.nth(p), v.get()); break;
            case 1: c.emplace(c.nth(p), std::move(v.get())); break;
            case 2: c.emplace(c.nth(p), kNew); break;
            case 3: c.emplace_back(v.get()); break;
            case 4: c.emplace_front(v.get()); break;
            case 5: c.emplace_back(kNew); break;
          }
          uint64_t made = W().copies + W().cassigns - c0, due = way == 0 || way == 3 || way == 4 ? 1 : 0;
          if (made != due) err("copied", "%llu copies were made, expected %llu", (unsigned long long)made, (unsigned long long)due);
          same_contents(c, m_ins(s.model, way >= 3 ? (way == 4 ? 0 : s.n) : p, 1, kNew, 0));
          if (settle()) return;
        }
  }
};
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta = 1, uint32_t tb = 1) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, V<C>::visit, ta, tb);
}
void go() {
  focus({"hostile-"});
#if PART == 1
  BFS("Trk 1,3", 19, 24, Cfg<TF, 1, 3>);
  BFS("Trk 2,3", 12, 14, Cfg<TF, 2, 3>);
#elif PART == 2
  BFS("no default, no comparison 2,3", 12, 14, Cfg<TN, 2, 3>);
  BFS("move-only, no default, no comparison 3,3", 16, 20, Cfg<Trk<MOV>, 3, 3>);
#elif PART == 3
  BFS("copy-only, no default, no comparison 3,3", 14, 18, Cfg<Trk<CPY>, 3, 3>);
  BFS("hostile operators 2,3", 12, 14, Cfg<TH, 2, 3>);
#elif PART == 4
  BFS("throwing moves 2,3", 12, 14, Cfg<TX, 2, 3>);
  BFS("hostile operators, construct and destroy 3,3", 14, 18, Cfg<TH, 3, 3, A_CON | A_DES>);
  FROM("hostile operators 8,6", fills({20, 45}), 0, 1, Cfg<TH, 8, 6>);
#elif PART == 5
  FROM("Trk 8,6", fills({20, 45, 70}), 0, 1, Cfg<TF, 8, 6>);
  FROM("tall Trk 1,3", fills({33, 64}), 0, 0, Cfg<TF, 1, 3>);
  FROM("default Trk", fills({64, 65, 300}), 0, 0, Cfg<TF, 64, 47, 0, 1024, 768>);
#elif PART == 6
  pairs<Cfg<TF, 2, 3>>("pairs Trk 2,3", 5, 6);
  pairs<Cfg<TH, 2, 3>>("pairs hostile operators 2,3", 4, 6);
  pairs<Cfg<TN, 3, 3>>("pairs no default, no comparison 3,3", 6, 8);
  pairs<Cfg<TX, 1, 3, A_STATE>>("pairs throwing moves, unequal allocators 1,3", 6, 8, 1, 2);
#endif
}
MC_MAIN(go())
