// parts: 8
// rule: for every combination of the propagation traits, every constructor and assignment runs on every state (pair of states, allocators equal and unequal); the reported allocator and the origin of every block and index node are compared with what allocator_traits prescribes
// C19: allocators propagate as their traits say.
#include "../faults.hpp"
using namespace mc;
// c uses allocator `tag`, reports it, and once everything else is gone every block comes from it.
template <class S> bool uses(const S& c, uint32_t tag, const char* which) {
  R.checks++;
  if (c.get_allocator().tag != tag) { err("allocator", "get_allocator() of the %s sequence is %u, expected %u", which, c.get_allocator().tag, tag); return false; }
  if (c.get_stored_allocator().tag != tag) { err("allocator", "get_stored_allocator() of the %s sequence is %u, expected %u", which, c.get_stored_allocator().tag, tag); return false; }
  return true;
}
inline void blocks_from(uint32_t tag, const char* which) {
  for_live_blocks([&](BlockHdr* h) { if (h->tag != tag) err("allocator", "%s of the %s sequence comes from allocator %u, expected %u", h->kind == kSeg ? "a block" : "an index node", which, h->tag, tag); });
}
template <class C> void grow(typename C::Seq& c) {
  for (size_t i = 0; i < 2 * C::segmax + 2; ++i) { c.push_back(mk<typename C::T>(7)); c.push_front(mk<typename C::T>(7)); }
  size_t n = c.size();
  c.erase(c.nth(n / 2), c.nth(n)); c.insert(c.begin(), mk<typename C::T>(3));
}
// The end of a transition: every sequence alone holds only blocks of its allocator, now and after more edits.
template <class C> void finish_off(std::initializer_list<std::pair<int, uint32_t>> who) {
  using S = typename C::Seq;
  if (g_err.set) return;
  Snapshot snap; snap.save();
  for (auto& w : who) {
    snap.restore(); W().opid++;
    S& c = Maker<C>::at(w.first); const char* name = w.first == 2 ? "new" : w.first == 1 ? "other" : "subject";
    for (auto& o : who) if (o.first != w.first) Maker<C>::at(o.first).~S();
    blocks_from(w.second, name);
    W().opid++;
    grow<C>(c); uses(c, w.second, name); blocks_from(w.second, name);
    c.~S();
    if (W().live_blocks[0] || W().live_blocks[1]) err("alloc-leak", "blocks remain after destruction");
    if (g_err.set) return;
  }
}
template <class C> struct V {
  static constexpr int less = 0;
  using S = typename C::Seq; using T = typename C::T; using A = typename C::A;
  static void visit(State<C>& s) {
    constexpr uint32_t sel = (C::pol & A_SEL) ? 100 : 0;
    auto ctor = [&](const char* nm, long k, const Vec& me, const Vec& him, uint32_t tag, auto make) {
      set_op(nm, k); S& c = s.fresh(); R.transitions++;
      make(c, static_cast<void*>(W().slot[2]));
      S& d = Maker<C>::at(2);
      if (same_contents(d, him)) { uses(d, tag, "new"); if (him.empty() || &me == &s.model) same_contents(c, me, "source"); uses(c, s.tag, "source"); }
      monitors<C>(c.size() + d.size());
      finish_off<C>({{0, s.tag}, {2, tag}});
      return settle();
    };
    Vec none;
    if constexpr (El<T>::copyable) {
      if (ctor("seq(const seq&)", 0, s.model, s.model, s.tag + sel, [&](S& c, void* p) { new (p) S(const_cast<const S&>(c)); })) return;
      for (uint32_t t : {1u, 7u}) if (ctor("seq(const seq&,alloc)", t, s.model, s.model, t, [&](S& c, void* p) { new (p) S(const_cast<const S&>(c), A(t)); })) return;
    }
    if (ctor("seq(seq&&)", 0, none, s.model, s.tag, [&](S& c, void* p) { new (p) S(std::move(c)); })) return;
    // the moved-from sequence is empty
    for (uint32_t t : {1u, 7u}) {
      auto before = W().copies;
      bool bad = ctor("seq(seq&&,alloc)", t, none, s.model, t, [&](S& c, void* p) {
        before = W().copies; auto mv = W().moves;
        new (p) S(std::move(c), A(t));
        if (El<T>::tracked && El<T>::movable && W().copies != before) err("copied", "elements were copied where they could be moved");
        if (t == s.tag && El<T>::tracked && W().moves != mv) err("moved", "elements were moved although the allocators are equal");
        if (t == s.tag && !c.empty()) err("contents", "the source is not empty");
        if (t != s.tag) sound(c, "source", s.n);
      });
      if (bad) return;
    }
    if (s.n == 0) {
      if (ctor("seq()", 0, s.model, none, 0, [&](S&, void* p) { new (p) S; })) return;
      if (ctor("seq(alloc)", 0, s.model, none, 7, [&](S&, void* p) { new (p) S(A(7)); })) return;
      for (size_t k = 0; k <= 4 * C::segmax + 1; ++k) {
        Vec m1 = m_seq(k, kNew, 1), mv = m_seq(k, kNew, 0), m0 = m_seq(k, 0, 0);
        for (uint32_t t : {0u, 7u}) {
          if constexpr (El<T>::dflt) if (ctor("seq(count,alloc)", long(k), s.model, m0, t, [&](S&, void* p) { if (t) new (p) S(k, A(t)); else new (p) S(k); })) return;
          if constexpr (El<T>::copyable) {
            if (ctor("seq(count,value,alloc)", long(k), s.model, mv, t, [&](S&, void* p) { Tmp<T> v(kNew); if (t) new (p) S(k, const_cast<const T&>(v.get()), A(t)); else new (p) S(k, const_cast<const T&>(v.get())); })) return;
            if (ctor("seq(range,alloc)", long(k), s.model, m1, t, [&](S&, void* p) { Src<T> v(k, kNew); const T* b = v.p; if (t) new (p) S(b, b + k, A(t)); else new (p) S(b, b + k); })) return;
            if (k == 2) if (ctor("seq(list,alloc)", long(k), s.model, m1, t, [&](S&, void* p) { std::initializer_list<T> l{T(mk<T>(kNew)), T(mk<T>(kNew + 1))}; if (t) new (p) S(l, A(t)); else new (p) S(l); })) return;
          }
        }
      }
    }
    // Operations that have nothing to do with allocators leave them alone.
    auto edit = [&](const char* nm, auto f) { set_op(nm); S& c = s.fresh(); R.transitions++; f(c); uses(c, s.tag, "subject"); monitors<C>(c.size()); finish_off<C>({{0, s.tag}}); return settle(); };
    if (edit("clear", [](S& c) { c.clear(); })) return;
    if (edit("self swap", [](S& c) { c.swap(c); })) return;
    if (edit("resize", [](S& c) { if constexpr (El<T>::dflt) c.resize(c.size() / 2); })) return;
    if constexpr (El<T>::copyable) {
      if (edit("= list", [](S& c) { c = {mk<T>(1), mk<T>(2), mk<T>(3)}; })) return;
      if (edit("assign", [](S& c) { c.assign(2 * C::segmax + 1, mk<T>(4)); })) return;
      if (edit("self assignment", [](S& c) { c = const_cast<const S&>(c); })) return;
    }
  }
};
template <class C> struct VP {
  using S = typename C::Seq; using T = typename C::T;
  static void visit(State<C>& s) {
    constexpr int P = C::pol;
    bool eq = s.tag == s.tag2;
    auto two = [&](const char* nm, long a, const Vec& m1, const Vec* m2, uint32_t t1, uint32_t t2, auto f) {
      set_op(nm, a); S& c = s.fresh(); S& d = s.second(); R.transitions++;
      f(c, d);
      if (same_contents(c, m1)) { if (m2) same_contents(d, *m2, "other-contents"); else sound(d, "source", s.n2); }
      uses(c, t1, "subject"); uses(d, t2, "other");
      monitors<C>(c.size() + d.size());
      finish_off<C>({{0, t1}, {1, t2}});
      return settle();
    };
    Vec none;
    if constexpr (El<T>::copyable)
      if (two("= const seq&", 0, s.model2, &s.model2, P & A_CCA ? s.tag2 : s.tag, s.tag2, [](S& a, S& b) { a = const_cast<const S&>(b); })) return;
    {
      bool steal = eq || (P & A_CMA);
      uint64_t b0 = 0;
      if (two("= seq&&", 0, s.model2, steal ? &none : nullptr, P & A_CMA ? s.tag2 : s.tag, s.tag2, [&](S& a, S& b) {
            b0 = W().copies + W().cassigns; auto m0 = W().moves + W().massigns;
            a = std::move(b);
            if (El<T>::tracked && El<T>::movable && W().copies + W().cassigns != b0) err("copied", "elements were copied where they could be moved");
            if (El<T>::tracked && steal && W().moves + W().massigns != m0) err("moved", "elements were moved although the storage can be handed over");
          })) return;
      static_assert(noexcept(std::declval<S&>() = std::declval<S&&>()) || !(P & A_CMA), "noexcept");
    }
    if (eq || (P & A_SWP)) {
      uint32_t t1 = (P & A_SWP) ? s.tag2 : s.tag, t2 = (P & A_SWP) ? s.tag : s.tag2;
      if (two("swap", 0, s.model2, &s.model, t1, t2, [](S& a, S& b) { a.swap(b); })) return;
      if (two("swap(a,b)", 0, s.model2, &s.model, t1, t2, [](S& a, S& b) { swap(a, b); })) return;
    }
    {
      Vec ex(s.model); size_t p = s.n / 2; ex.insert(ex.begin() + p, s.model2.begin(), s.model2.end());
      if (two("splice", long(p), ex, &none, s.tag, s.tag2, [&](S& a, S& b) { a.splice(a.nth(p), b); })) return;
      if (two("splice&&", long(p), ex, &none, s.tag, s.tag2, [&](S& a, S& b) { a.splice(a.nth(p), std::move(b)); })) return;
      size_t i = s.n2 / 3, j = s.n2 - s.n2 / 4;
      Vec e1(s.model); e1.insert(e1.begin() + p, s.model2.begin() + i, s.model2.begin() + j); Vec e2 = m_del(s.model2, i, j);
      if (two("splice(range)", long(p), e1, &e2, s.tag, s.tag2, [&](S& a, S& b) { a.splice(a.nth(p), b, b.nth(i), b.nth(j)); })) return;
      if (s.n2) {
        Vec o1 = m_ins(s.model, p, 1, s.model2[i], 0), o2 = m_del(s.model2, i, i + 1);
        if (two("splice(one)", long(p), o1, &o2, s.tag, s.tag2, [&](S& a, S& b) { a.splice(a.nth(p), b, b.nth(i)); })) return;
      }
      Vec all; std::merge(s.model.begin(), s.model.end(), s.model2.begin(), s.model2.end(), std::back_inserter(all));
      if constexpr (El<T>::cmp) if (two("merge", 0, all, &none, s.tag, s.tag2, [](S& a, S& b) { a.merge(b); })) return;
    }
  }
};
template <int P> void combo(size_t q) {
  char name[80];
  auto nm = [&](const char* w) { snprintf(name, sizeof name, "%s copy%d move%d swap%d select%d", w, !!(P & A_CCA), !!(P & A_CMA), !!(P & A_SWP), !!(P & A_SEL)); return name; };
  size_t n = R.thorough() ? q + 2 : q;
  { using C = Cfg<TF, 2, 3, P | A_STATE>; Explorer<C> e; e.explore(nm("Trk 2,3"), n + 5, V<C>::visit); }
  { using C = Cfg<TF, 2, 3, P | A_STATE>; Explorer<C> e; e.explore_pairs(nm("equal Trk 2,3"), n, n, VP<C>::visit, 1, 1); }
  { using C = Cfg<TF, 2, 3, P | A_STATE>; Explorer<C> e; e.explore_pairs(nm("unequal Trk 2,3"), n, n, VP<C>::visit, 1, 2); }
}
template <class C> void other(const char* name, size_t q) {
  size_t n = R.thorough() ? q + 2 : q;
  Explorer<C> e; e.explore(name, n + 3, V<C>::visit);
  Explorer<C> f; std::string u = std::string("unequal ") + name; f.explore_pairs(u, n, n, VP<C>::visit, 1, 2);
}
void go() {
  focus({"life-", "alloc-"});
#if PART <= 4
  constexpr int P = (PART & 1 ? A_CCA : 0) | (PART & 2 ? A_CMA : 0);   // PART 4: neither
  combo<P>(8);
  combo<P | A_SWP>(8);
  combo<P | A_SEL>(8);
  combo<P | A_SWP | A_SEL>(8);
#elif PART == 5
  other<Cfg<TM, 2, 3, A_STATE>>("move-only, none propagate 2,3", 7);
  other<Cfg<TM, 2, 3, A_STATE | A_CMA>>("move-only, move propagates 2,3", 7);
  other<Cfg<TM, 3, 3, A_STATE | A_SWP>>("move-only, swap propagates 3,3", 10);
#elif PART == 6
  other<Cfg<uint32_t, 2, 3, A_STATE>>("u32, none propagate 2,3", 7);
  other<Cfg<uint32_t, 2, 3, A_STATE | A_CCA | A_CMA | A_SWP | A_SEL>>("u32, all propagate 2,3", 7);
  other<Cfg<Tv<24>, 3, 3, A_STATE | A_CCA>>("24 bytes, copy propagates 3,3", 10);
#elif PART == 7
  other<Cfg<TF, 1, 3, A_STATE>>("Trk, none propagate 1,3", 12);
  other<Cfg<TF, 1, 3, A_STATE | A_CMA | A_CCA>>("Trk, copy and move propagate 1,3", 12);
  other<Cfg<TC, 2, 3, A_STATE>>("copy-only, none propagate 2,3", 7);
#elif PART == 8
  using C1 = Cfg<TF, 8, 6, A_STATE>; using C2 = Cfg<uint32_t, 2, 3, A_STATE | A_CCA>;
  FROM("Trk 8,6", fills({45, 70}), 0, 0, C1);
  { Explorer<C1> e; e.explore_pairs_from("unequal Trk 8,6", fills({3, 20, 60}), VP<C1>::visit, 1, 2); }
  FROM("tall u32 2,3", fills({50, 90}), 0, 0, C2);
  { Explorer<C2> e; e.explore_pairs_from("unequal tall u32 2,3", fills({3, 20, 60}), VP<C2>::visit, 1, 2); }
  using D1 = Cfg<uint64_t, 128, 47, A_STATE, 1024, 768>; using D2 = Cfg<uint64_t, 128, 47, A_STATE | A_CCA | A_CMA | A_SWP, 1024, 768>; using D3 = Cfg<uint32_t, 64, 47, A_STATE, 256, 768>;
  { Explorer<D1> e; e.explore_pairs_from("unequal default u64", fills({20, 129, 6100}, false), VP<D1>::visit, 1, 2); }
  { Explorer<D2> e; e.explore_pairs_from("unequal, all propagate, default u64", fills({20, 129, 6100}, false), VP<D2>::visit, 1, 2); }
  { Explorer<D3> e; e.explore_pairs_from("unequal long u32", {{{'B', 5, 0}}, {{'B', 66000, 0}}}, VP<D3>::visit, 1, 2); }
#endif
}
MC_MAIN(go())
