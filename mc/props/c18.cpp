// parts: 6
// rule: every move and swap runs on every state or pair of states with all access to blocks and nodes withdrawn where nothing of them has to be released, and iterators obtained before are judged in their new owner
// C18: moves and swaps transfer ownership in constant time.
#define MC_PAGE_BLOCKS
#include "../faults.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq; using T = typename C::T; using It = typename S::iterator;
  struct Before { std::vector<uint32_t> q; std::vector<It> it; std::vector<T*> addr; };
  static Before note(S& c, size_t n) {
    Before b; b.q = few_positions(n, C::segmax, 12, 40);
    for (auto q : b.q) { b.it.push_back(c.nth(q)); b.addr.push_back(std::addressof(c[q])); }
    return b;
  }
  static void follow(S& owner, Before& b, const Vec& m) {
    for (size_t i = 0; i < b.q.size() && !g_err.set; ++i) {
      if (std::addressof(*b.it[i]) != b.addr[i] || std::addressof(owner[b.q[i]]) != b.addr[i]) { err("iterator", "element %u is no longer where it was", b.q[i]); return; }
      iter_exact(owner, b.it[i], b.q[i], m, false);
    }
    // and can be used for edits of the new owner
  }
  static void reusable(S& c, const char* which) {
    if (c.size() || !c.empty() || c.height() || c.begin() != c.end() || c.cbegin() != c.cend() || c.rbegin() != c.rend()) { err("moved-from", "the moved-from sequence (%s) is not empty", which); return; }
    c.push_back(mk<T>(kNew)); c.push_front(mk<T>(kNew + 1)); c.insert(c.nth(1), mk<T>(kNew + 2));
    for (int i = 0; i < 6; ++i) c.push_back(mk<T>(uint32_t(kNew + 3 + i)));
    same_contents(c, Vec{kNew + 1, kNew + 2, kNew, kNew + 3, kNew + 4, kNew + 5, kNew + 6, kNew + 7, kNew + 8}, "moved-from");
    c.clear();
  }
  struct Work { uint64_t e, a; };
  static Work work() { World& w = W(); return {w.moves + w.copies + w.massigns + w.cassigns + w.valctor + w.dflt, w.allocs[0] + w.allocs[1] + w.allocs[2]}; }
  static void untouched(Work a) { Work b = work(); if (a.e != b.e) err("touched", "%llu elements were constructed, copied or moved", (unsigned long long)(b.e - a.e)); if (a.a != b.a) err("allocated", "%llu blocks were requested", (unsigned long long)(b.a - a.a)); }
  template <class F> static void quick(F f) {
    Work w = work();
    { Withhold h(kFirstBlock, PROT_NONE, "the operation read or wrote a block or an index node"); f(); }
    untouched(w); R.transitions++;
  }
  static void visit(State<C>& s) {
    S* d = &Maker<C>::at(2);
    for (int way = 0; way < 2; ++way) {
      set_op(way ? "seq(seq&&,alloc)" : "seq(seq&&)");
      S& c = s.fresh(); Before b = note(c, s.n);
      quick([&] { if (way) new (W().slot[2]) S(std::move(c), c.get_allocator()); else new (W().slot[2]) S(std::move(c)); });
      full_contents(*d, s.model); follow(*d, b, s.model); reusable(c, "source"); monitors<C>(s.n);
      if (settle()) return;
      // edits through the iterators in the new owner
      if (s.n) {
        set_op(way ? "seq(seq&&,alloc) then an edit of the new owner" : "seq(seq&&) then an edit of the new owner");
        for (size_t i = 0; i < b.q.size(); ++i) {
          S& c2 = s.fresh(); Before b2 = note(c2, s.n);
          new (W().slot[2]) S(std::move(c2));
          auto r = i % 2 ? d->erase(b2.it[i]) : d->insert(b2.it[i], mk<T>(kNew));
          iter_exact(*d, r, b2.q[i], i % 2 ? m_del(s.model, b2.q[i], b2.q[i] + 1) : m_ins(s.model, b2.q[i], 1, kNew, 0), false);
          if (settle()) return;
        }
      }
    }
    set_op("self swap");
    { S& c = s.fresh(); Before b = note(c, s.n); quick([&] { c.swap(c); swap(c, c); }); full_contents(c, s.model, "self"); follow(c, b, s.model); monitors<C>(s.n); if (settle()) return; }
    set_op("self move");
    { S& c = s.fresh(); R.transitions++; S& r = c; c = std::move(r); if (sound(c, "self-moved", s.n)) { monitors<C>(c.size()); if (!g_err.set) usable_now<C>(c, "self-moved"); } c.~S(); if (!g_err.set && (W().live_blocks[0] || W().live_blocks[1])) err("leak", "self-move leaks blocks"); if (settle()) return; }
    // moved from and moved back
    set_op("there and back");
    { S& c = s.fresh(); Before b = note(c, s.n); quick([&] { S t(std::move(c)); c = std::move(t); }); full_contents(c, s.model); follow(c, b, s.model); if (settle()) return; }
  }
};
template <class C> struct VP {
  using S = typename C::Seq;
  static void visit(State<C>& s) {
    auto both = [&](const char* nm, auto f) {
      set_op(nm);
      S& c = s.fresh(); S& d = s.second();
      auto b = V<C>::note(c, s.n), b2 = V<C>::note(d, s.n2);
      V<C>::quick([&] { f(c, d); });
      full_contents(c, s.model2); full_contents(d, s.model, "other-contents");
      V<C>::follow(d, b, s.model); V<C>::follow(c, b2, s.model2); monitors<C>(s.n + s.n2);
      return settle();
    };
    bool same_alloc = !(C::pol & A_STATE) || s.tag == s.tag2;
    if (same_alloc || (C::pol & A_SWP)) {
      if (both("swap", [](S& a, S& b) { a.swap(b); })) return;
      if (both("swap(a,b)", [](S& a, S& b) { swap(a, b); })) return;
      if (both("std::swap(a,b)", [](S& a, S& b) { using std::swap; swap(a, b); })) return;
    }
    if (!same_alloc && !(C::pol & A_CMA)) return;
    set_op("= seq&&");
    S& c = s.fresh(); S& d = s.second();
    auto b = V<C>::note(d, s.n2);
    auto w = V<C>::work(); uint64_t gone = W().dtors;
    if (s.n == 0) V<C>::quick([&] { c = std::move(d); }); else { R.transitions++; c = std::move(d); }
    V<C>::untouched(w);
    if (El<typename C::T>::tracked && W().dtors - gone != s.n) err("touched", "%llu elements were destroyed, the target held %zu", (unsigned long long)(W().dtors - gone), s.n);
    full_contents(c, s.model2); V<C>::follow(c, b, s.model2); V<C>::reusable(d, "source"); monitors<C>(s.n2);
    settle();
  }
};
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta = 1, uint32_t tb = 1) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, ta, tb);
}
void go() {
  focus({"life-", "alloc-"});
#if PART == 1
  BFS("Trk 1,3", 19, 23, Cfg<TF, 1, 3>);
  BFS("Trk 2,3", 11, 13, Cfg<TF, 2, 3>);
#elif PART == 2
  BFS("u32 3,3", 18, 23, Cfg<uint32_t, 3, 3>);
  BFS("move-only 4,3", 15, 19, Cfg<TM, 4, 3>);
  BFS("copy-only 5,4", 16, 20, Cfg<TC, 5, 4>);
#elif PART == 3
  FROM("Trk 8,6", fills({20, 45, 70}), 0, 1, Cfg<TF, 8, 6>);
  FROM("tall u32 2,3", fills({50, 90}), 0, 1, Cfg<uint32_t, 2, 3>);
  FROM("default Trk", fills({64, 65, 300, 2000, 3100}), 0, 0, Cfg<TF, 64, 47, 0, 1024, 768>);
  FROM("many u32 2,3", fills({800}), 0, 0, Cfg<uint32_t, 2, 3>);
  FROM("long u32", fills({66000}, false), 0, 0, Cfg<uint32_t, 64, 47, 0, 256, 768>);
#elif PART == 4
  pairs<Cfg<TF, 2, 3>>("pairs 2,3", 6, 8);
  pairs<Cfg<TM, 3, 3>>("pairs move-only 3,3", 9, 12);
  { using D = Cfg<uint64_t, 128, 47, 0, 1024, 768>; Explorer<D> e; e.explore_pairs_from("long pairs u64", fills({20, 129, 700, 6100}, false), VP<D>::visit, 1, 1); }
  { using L = Cfg<uint32_t, 64, 47, 0, 256, 768>; Explorer<L> e; e.explore_pairs_from("long pairs u32", {{{'B', 5, 0}}, {{'B', 65, 0}}, {{'B', 66000, 0}}}, VP<L>::visit, 1, 1); }
#elif PART == 5
  pairs<Cfg<TF, 1, 3>>("pairs 1,3", 10, 13);
  pairs<Cfg<uint32_t, 4, 3, A_STATE>>("one stateful allocator 4,3", 8, 11, 1, 1);
#elif PART == 6
  pairs<Cfg<TF, 2, 3, A_STATE | A_CMA | A_SWP>>("two allocators, all propagate 2,3", 5, 7, 1, 2);
  pairs<Cfg<TF, 3, 3, A_STATE | A_CMA>>("two allocators, move propagates 3,3", 8, 10, 1, 2);
  pairs<Cfg<uint32_t, 2, 3, A_STATE | A_SWP>>("two allocators, swap propagates 2,3", 5, 7, 1, 2);
#endif
}
MC_MAIN(go())
