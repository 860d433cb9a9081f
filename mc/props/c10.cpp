// parts: 5
// rule: accesses to index nodes are counted by the allocator's pointer type during every lookup, jump and traversal in every state
// assume: index nodes are reached through the pointer type of the allocator
// C10: lookup is logarithmic and traversal amortized constant.
#include "../shape.hpp"
#include "../fancy.hpp"
using namespace mc;
template <class F> uint64_t spent(F f) { uint64_t a = g_derefs; f(); R.transitions++; return g_derefs - a; }
inline uint64_t g_most[8];
inline void most(int i, uint64_t v) { if (v > g_most[i]) g_most[i] = v; }
template <class C> struct V {
  static constexpr int less = 0;
  using S = typename C::Seq; using T = typename C::T;
  static bool bad(const char* what, uint64_t got, uint64_t bound, size_t n, size_t h) {
    if (got <= bound) return false;
    err("a-cost", "%s makes %llu accesses to index nodes, the bound for %zu elements and height %zu is %llu", what, (unsigned long long)got, n, h, (unsigned long long)bound);
    return true;
  }
  template <class Q, class It> static void look(Q& c, size_t n, bool all) {
    size_t h = c.height();
    const uint64_t per = 2 * C::basemax + 8, lookup = h * per;
    volatile size_t sink = 0;
    auto seen = [&](It x) { sink = sink + (x == c.end()); };
    set_op("begin and end");
    if (bad("begin()", spent([&] { auto x = c.begin(); sink = sink + (&x != nullptr); }), lookup, n, h)) return;
    if (bad("end()", spent([&] { auto x = c.end(); sink = sink + (&x != nullptr); }), lookup, n, h)) return;
    if (bad("size()", spent([&] { sink = sink + c.size() + c.empty() + c.height(); }), 0, n, h)) return;
    if (n && bad("penultimate()", spent([&] { auto x = c.penultimate(); sink = sink + (&x != nullptr); }), lookup, n, h)) return;
    if (n && bad("front() and back()", spent([&] { sink = sink + val(c.front()) + val(c.back()); }), 2 * lookup, n, h)) return;
    std::vector<uint32_t> ps;
    if (all) for (size_t i = 0; i <= n; ++i) ps.push_back(uint32_t(i)); else ps = few_positions(n + 1, C::segmax, 60);
    for (size_t i : ps) {
      set_op("lookup", i);
      uint64_t d = spent([&] { It x = c.nth(i); sink = sink + (x.current() != x.end()); });
      most(0, d * 100 / (h ? h * C::basemax : 1));
      if (bad("nth()", d, lookup, n, h)) return;
      if (i < n && bad("operator[]", spent([&] { sink = sink + val(c[i]); }), lookup, n, h)) return;
      It it = c.nth(i);
      if (bad("index_of()", spent([&] { sink = sink + c.index_of(it); }), lookup, n, h)) return;
      // one step may climb and descend the whole tree, and no more
      if (i < n) { It x = it; if (bad("++", spent([&] { ++x; }), 2 * lookup, n, h)) return; }
      if (i > 0) { It x = it; if (bad("--", spent([&] { --x; }), 2 * lookup, n, h)) return; }
      for (size_t j : all ? positions(n + 1, C::segmax) : few_positions(n + 1, C::segmax, 30)) {
        It x = it; ptrdiff_t dist = ptrdiff_t(j) - ptrdiff_t(i);
        uint64_t jc = spent([&] { x += dist; });
        most(1, jc * 100 / (h ? h * C::basemax : 1));
        if (bad("a jump", jc, 2 * lookup, n, h)) return;
        It y = c.nth(j);
        if (bad("comparison and distance", spent([&] { sink = sink + (it == y) + (it != y) + (it < y) + (it > y) + (it <= y) + (it >= y) + size_t(it - y); }), 0, n, h)) return;
        // a jump inside the block it is in
        if (i < n && j < n && it.begin() == y.begin() && bad("a jump inside a block", spent([&] { It z = it; z += dist; sink = sink + (z == y); }), 8, n, h)) return;
      }
      seen(it);
    }
  }
  // whole traversals, and walks with a fixed stride
  template <class Q, class It> static void walk(Q& c, size_t n) {
    size_t h = c.height();
    volatile size_t sink = 0;
    uint64_t bound = 20 * uint64_t(n) + 2 * h * (2 * C::basemax + 8);
    set_op("walk forward");
    uint64_t f = spent([&] { auto e = c.end(); for (auto it = c.begin(); it != e; ++it) sink = sink + val(*it); });
    if (n > 20) most(2, f * 100 / n);
    if (bad("a whole traversal", f, bound, n, h)) return;
    set_op("walk backward");
    uint64_t b = spent([&] { auto e = c.begin(); for (auto it = c.end(); it != e;) { --it; sink = sink + val(*it); } });
    if (n > 20) most(3, b * 100 / n);
    if (bad("a whole traversal backwards", b, bound, n, h)) return;
    uint64_t r = spent([&] { for (auto it = c.rbegin(), e = c.rend(); it != e; ++it) sink = sink + (it == e); });
    if (bad("stepping reverse iterators", r, bound, n, h)) return;
    set_op("walk by blocks");
    uint64_t s = spent([&] { auto e = c.end(); for (auto it = c.begin(); it != e;) it.move_after_segment(); });
    if (bad("walking by blocks", s, bound, n, h)) return;
    // Over all starting points a jump by d costs on average what a tree spanning d costs, not the whole height.
    for (size_t d : {size_t(1), size_t(2), size_t(3), C::segmax, C::segmax + 1, 2 * C::segmax + 1, 5 * C::segmax, 20 * C::segmax, 100 * C::segmax}) {
      if (d >= n || n < 200) continue;
      set_op("jumps by", d);
      uint64_t total = spent([&] { for (size_t i = 0; i + d <= n; ++i) { auto x = c.nth(i); uint64_t skip = g_derefs; x += ptrdiff_t(d); uint64_t one = g_derefs - skip; g_jump += one; sink = sink + (x == c.end()); } });
      (void)total;
      uint64_t sum = g_jump; g_jump = 0;
      size_t span = tallest(d, C::segmin, C::basemin) + 1;
      uint64_t cap = (n - d + 1) * span * (2 * C::basemax + 8) + h * (2 * C::basemax + 8);
      most(4, sum * 100 / ((n - d + 1) * span * (2 * C::basemax + 8)));
      if (bad("jumping by a fixed distance from everywhere", sum, cap, n, h)) return;
      total = spent([&] { for (size_t i = n; i >= d; --i) { auto x = c.nth(i); uint64_t skip = g_derefs; x -= ptrdiff_t(d); g_jump += g_derefs - skip; sink = sink + (x == c.end()); } });
      sum = g_jump; g_jump = 0;
      if (bad("jumping back by a fixed distance from everywhere", sum, cap, n, h)) return;
    }
  }
  static inline uint64_t g_jump;
  static void visit(State<C>& s) {
    S& c = s.fresh(); const S& k = c;
    R.checks++;
    outcome("height " + std::to_string(c.height()));
    look<S, typename S::iterator>(c, s.n, s.n <= 60); if (settle()) return;
    look<const S, typename S::const_iterator>(k, s.n, s.n <= 60); if (settle()) return;
    walk<S, typename S::iterator>(c, s.n); if (settle()) return;
    walk<const S, typename S::const_iterator>(k, s.n); if (settle()) return;
    set_op("swap");
    Maker<C>::construct(1, 1);
    uint64_t d = spent([&] { c.swap(s.seq(1)); swap(c, s.seq(1)); });
    bad("swap", d, 0, s.n, c.height());
    settle();
    Maker<C>::at(1).~S();
  }
};
void go() {
  focus({"a-"});
#if PART == 1
  BFS("counting 1,3", 20, 25, FCfg<TF, 1, 3>);
  BFS("counting 3,3", 18, 22, FCfg<uint32_t, 3, 3>);
#elif PART == 2
  BFS("counting 2,3", 12, 14, FCfg<uint32_t, 2, 3>);
  FROM("counting 8,6", fills({20, 45, 70}), 1, 1, FCfg<uint32_t, 8, 6>);
  FROM("tall 1,3", fills({64, 300}), 0, 1, FCfg<uint32_t, 1, 3>);
#elif PART == 3
  FROM("tall 2,3", fills({800, 3000}), 0, 0, FCfg<uint32_t, 2, 3>);
  FROM("many 4,5", fills({2000, 9000}), 0, 0, FCfg<uint32_t, 4, 5>);
#elif PART == 4
  FROM("many 16,12", fills({3000, 40000}), 0, 0, FCfg<uint32_t, 16, 12>);
  FROM("default", fills({500, 6000, 20000}), 0, 0, FCfg<uint64_t, 128, 47, size_t, 1024, 768>);
#elif PART == 5
  FROM("tall 1,3 many", fills({2000, 5000}), 0, 0, FCfg<uint32_t, 1, 3>);
  FROM("wide 2,100", fills({3000, 30000}), 0, 0, FCfg<uint32_t, 2, 100>);
#endif
  const char* nm[] = {"lookup, % of h*basemax", "jump, % of h*basemax", "forward, accesses per 100 elements", "backward, accesses per 100 elements", "average jump, % of bound"};
  for (int i = 0; i < 5; ++i) R.counts[nm[i]] = g_most[i];
}
MC_MAIN(go())
