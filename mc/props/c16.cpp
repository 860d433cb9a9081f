// parts: 6
// rule: every operation that must not fail runs in every state with all memory exhausted, the sequence's allocator and the global operator new alike; and what must not fail is declared so
// C16: removal, clearing, swapping and moving never fail or allocate.
#include "../suite.hpp"
using namespace mc;
static bool g_deny_new; static uint64_t g_denied;
void* operator new(size_t n) { if (g_deny_new) { ++g_denied; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (g_deny_new) { ++g_denied; return nullptr; } return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq; using T = typename C::T;
  template <class F> static bool starved(F f) {
    uint64_t a = W().allocs[0] + W().allocs[1] + W().allocs[2], d = g_denied;
    W().deny_alloc = 1; g_deny_new = true;
    bool threw = false;
    try { f(); } catch (...) { threw = true; }
    g_deny_new = false; W().deny_alloc = 0;
    R.transitions++;
    if (threw) { err("a-failed", "the operation failed when memory was exhausted"); return false; }
    if (g_denied != d || W().allocs[0] + W().allocs[1] + W().allocs[2] != a) { err("a-asked", "the operation requested memory"); return false; }
    return true;
  }
  static void one(State<C>& s, const Op<S>& o) {
    op_name(o);
    S& c = s.fresh();
    if (starved([&] { o.run(c); })) {
      same_contents(c, *o.expect);
      if (o.expect2) same_contents(Maker<C>::at((o.flags & O_CTOR) ? 2 : 1), *o.expect2, "other-contents");
      strcpy(R.extra, "then destruction");
      starved([&] { c.~S(); if (o.flags & O_CTOR) Maker<C>::at(2).~S(); if (s.pair) s.second().~S(); });
      s.built = false;                             // (matters where states are rebuilt)
    }
    settle();
  }
  static void reads(State<C>& s) {
    set_op("lookups and iterator movement");
    S& c = s.fresh(); const S& k = c; size_t n = s.n;
    volatile uint64_t sink = 0;
    starved([&] {
      sink = sink + c.size() + c.height() + c.empty() + c.max_size();
      for (size_t i : {size_t(0), n / 2, n}) {
        auto it = c.nth(i); auto ct = k.nth(i);
        typename S::const_iterator cv = it; cv = it;
        sink = sink + c.index_of(it) + k.index_of(ct) + (it == c.end()) + (ct < k.end()) + size_t(k.end() - ct);
        for (size_t j : {size_t(0), n / 3, n}) { auto x = it; x += ptrdiff_t(j) - ptrdiff_t(i); sink = sink + c.index_of(x); auto y = ct + (ptrdiff_t(j) - ptrdiff_t(i)); sink = sink + k.index_of(y); }
        if (i < n) { sink = sink + val(c[i]) + val(c.at(i)) + val(k[i]) + val(*it); auto a = it; a.move_after_segment(); sink = sink + c.index_of(a); }
      }
      for (auto it = k.begin(); it != k.end(); ++it) sink = sink + val(*it);
      for (auto it = k.rbegin(); it != k.rend(); ++it) sink = sink + val(*it);
      if (n) sink = sink + val(c.front()) + val(c.back()) + val(*c.penultimate());
      if constexpr (El<T>::cmp) sink = sink + (c == k) + (c < k);
      auto al = c.get_allocator(); (void)al;
    });
    settle();
    set_op("self swap");
    S& d = s.fresh();
    starved([&] { d.swap(d); });
    same_contents(d, s.model);
    settle();
  }
  // what must not fail says so, so that others (a growing std::vector) can rely on it
  static void promises() {
    using A = typename C::A; using TR = std::allocator_traits<A>;
    set_op("what is declared not to throw");
    auto need = [](bool ok, const char* what) { R.checks++; if (!ok) err("a-promise", "%s is not declared noexcept", what); };
    if (std::is_nothrow_move_constructible<A>::value) need(std::is_nothrow_move_constructible<S>::value, "move construction");
    if (TR::propagate_on_container_move_assignment::value && std::is_nothrow_move_assignable<A>::value) need(std::is_nothrow_move_assignable<S>::value, "move assignment");
    if (!TR::propagate_on_container_swap::value) { need(noexcept(std::declval<S&>().swap(std::declval<S&>())), "swap()"); need(noexcept(swap(std::declval<S&>(), std::declval<S&>())), "swap(a, b)"); }
    need(std::is_nothrow_destructible<S>::value, "destruction");
    need(noexcept(std::declval<S&>().clear()), "clear()");
    need(noexcept(std::declval<const S&>().size()) && noexcept(std::declval<const S&>().empty()) && noexcept(std::declval<S&>().begin()) && noexcept(std::declval<S&>().end()) && noexcept(std::declval<S&>().nth(0)), "access");
    settle();
  }
  static void visit(State<C>& s) {
    promises();
    auto f = [&](const Op<S>& o) { if (o.flags & O_NOTHROW) one(s, o); };
    ops_erase1<C>(s, f);
    ops_erase_range<C>(s, f);
    ops_assign<C>(s, s.n <= 24 ? upto(s.n) : std::vector<size_t>{0, 1, s.n / 2, s.n - 1, s.n}, f);
    ops_ctor<C>(s, {}, [&](const Op<S>& o) { if (!strncmp(o.name, "seq(seq&&", 9) || !strcmp(o.name, "seq()") || !strcmp(o.name, "seq(alloc)")) one(s, o); });
    reads(s);
    if (s.n > 5000) return;
    // emptied one by one, from either end and from the middle
    for (int way = 0; way < 3; ++way) {
      set_op("erase until empty", way);
      S& c = s.fresh();
      starved([&] { for (size_t guard = s.n; guard-- && !c.empty();) { if (way == 0) c.pop_back(); else if (way == 1) c.pop_front(); else c.erase(c.nth(c.size() / 2)); } });
      same_contents(c, Vec{}); if (settle()) return;
    }
  }
};
template <class C> struct VP {
  static void visit(State<C>& s) {
    bool uneq = (C::pol & A_STATE) && s.tag != s.tag2;
    ops_pair<C>(s, [&](const Op<typename C::Seq>& o) {
      if (!(o.flags & O_NOTHROW)) return;
      if (uneq && !strncmp(o.name, "swap", 4) && !(C::pol & A_SWP)) return;
      if (uneq && o.name[0] == '=' && !(C::pol & A_CMA)) return;
      V<C>::one(s, o);
    });
  }
};
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta = 1, uint32_t tb = 1) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, ta, tb);
}
void go() {
  focus({"a-"});
  g_at_violation = [] { g_deny_new = false; };
#if PART == 1
  BFS("Trk 1,3", 22, 26, Cfg<TF, 1, 3>);
#elif PART == 2
  BFS("Trk 2,3", 13, 15, Cfg<TF, 2, 3>);
  BFS("u32 3,3", 19, 24, Cfg<uint32_t, 3, 3>);
#elif PART == 3
  BFS("u32 4,3", 17, 21, Cfg<uint32_t, 4, 3>);
  BFS("move-only 5,4", 18, 23, Cfg<TM, 5, 4>);
  BFS("copy-only 3,3", 16, 19, Cfg<TC, 3, 3>);
#elif PART == 4
  FROM("Trk 8,6", fills({20, 45, 70}), 1, 1, Cfg<TF, 8, 6>);
  FROM("tall u32 1,3", fills({40, 64}), 1, 1, Cfg<uint32_t, 1, 3>);
  BFS("std::allocator u64 2,3", 11, 13, StdCfg<uint64_t, 2, 3>);
  BFS("std::allocator string 3,3", 11, 14, StdCfg<std::string, 3, 3>);
#elif PART == 5
  FROM("default u64", fills({100, 129, 500, 6100}), 0, 0, StdCfg<uint64_t, 128, 47, 1024, 768>);
  FROM("default Trk", fills({64, 65, 200, 2000}), 0, 0, Cfg<TF, 64, 47, 0, 1024, 768>);
  FROM("long block u16", fills({300, 66000}), 0, 0, Cfg<uint16_t, 65536, 3, 0, 131072, 0>);
#elif PART == 6
  pairs<Cfg<TF, 2, 3>>("pairs 2,3", 7, 9);
  pairs<Cfg<uint32_t, 1, 3>>("pairs 1,3", 13, 16);
  pairs<Cfg<TF, 3, 3, A_STATE | A_CMA | A_SWP>>("two allocators, move and swap propagate 3,3", 11, 14, 1, 2);
  pairs<Cfg<TF, 3, 3, A_STATE>>("one stateful allocator 3,3", 11, 14, 1, 1);
#endif
}
MC_MAIN(go())
