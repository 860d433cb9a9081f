// parts: 6
// rule: in every state (and with every second sequence of a family) every operation is run with its element operations, comparisons or predicate calls, memory requests and accesses to index nodes counted, and each compared with a bound of the documented order whose constants depend only on the capacities
// assume: index nodes are reached through the pointer type of the allocator
// C33: every operation keeps its documented complexity.
#include "../shape.hpp"
#include "../fancy.hpp"
#include <new>
// Temporary memory for sort and merge: granted or refused.
static bool g_refuse;
void* operator new(size_t n, const std::nothrow_t&) noexcept { return g_refuse ? nullptr : malloc(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
namespace mc {
inline uint64_t g_work, g_cmp;
struct Cn {
  uint32_t v;
  Cn() : v(0) { ++g_work; }
  explicit Cn(uint32_t x) : v(x) { ++g_work; }
  Cn(const Cn& o) : v(o.v) { ++g_work; }
  Cn(Cn&& o) noexcept : v(o.v) { ++g_work; }
  Cn& operator=(const Cn& o) { v = o.v; ++g_work; return *this; }
  Cn& operator=(Cn&& o) noexcept { v = o.v; ++g_work; return *this; }
  ~Cn() { ++g_work; }
  friend bool operator==(const Cn& a, const Cn& b) { ++g_cmp; return a.v == b.v; }
  friend bool operator<(const Cn& a, const Cn& b) { ++g_cmp; return a.v < b.v; }
};
template <> struct El<Cn> {
  static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false;
  static uint32_t get(const Cn& t) { return t.v; }
  static void put(Cn& t, uint32_t v) { t.v = v; }
};
inline unsigned log2up(size_t n) { unsigned r = 0; while ((size_t(1) << r) < n) ++r; return r; }
}  // namespace mc
using namespace mc;
struct Spent { uint64_t work, cmp, look, blocks; };
inline Spent spent_now() { return {g_work, g_cmp, g_derefs, W().allocs[0] + W().allocs[1] + W().allocs[2]}; }
inline uint64_t g_top[12];
inline const char* kTop[12] = {"edits", "constructors", "assignments", "clear", "comparisons", "reverse", "removal", "sort", "merge", "splice", "", "resize"};
template <class C> struct V {
  static constexpr int less = 0;
  using S = typename C::Seq; using T = typename C::T;
  // what one edit of a sequence of height h may cost; elements are moved, and destroyed where they were
  static constexpr uint64_t edit_work = 6 * C::segmax + 24;
  static uint64_t edit_look(size_t h) { return 8 * (uint64_t(h) + 1) * (C::basemax + 4); }
  struct Bound { uint64_t work, cmp, look; };
  static void check(int group, Spent a, Spent b, Bound m, size_t n) {
    uint64_t work = b.work - a.work, cmp = b.cmp - a.cmp, look = b.look - a.look;
    auto top = [&](uint64_t v, uint64_t lim) { if (lim && v * 100 / lim > g_top[group]) g_top[group] = v * 100 / lim; };
    top(work, m.work); top(cmp, m.cmp); top(look, m.look);
    R.checks++;
    if (work > m.work) err("a-cost", "%llu element operations with %zu elements, the bound is %llu", (unsigned long long)work, n, (unsigned long long)m.work);
    if (cmp > m.cmp) err("a-cost", "%llu comparisons or calls of the predicate with %zu elements, the bound is %llu", (unsigned long long)cmp, n, (unsigned long long)m.cmp);
    if (look > m.look) err("a-cost", "%llu accesses to index nodes with %zu elements, the bound is %llu", (unsigned long long)look, n, (unsigned long long)m.look);
  }
  // Runs one operation; bound(h) is asked afterwards with the largest height seen.
  template <class F, class B> static bool run(State<C>& s, int group, const char* nm, long a, long b, F f, B bound) {
    set_op(nm, a, b);
    S& c = s.fresh(); R.transitions++;
    size_t h = c.height();
    Spent x = spent_now();
    f(c);
    Spent y = spent_now();
    if (c.height() > h) h = c.height();
    check(group, x, y, bound(h), s.n);
    return settle();
  }
  static void visit(State<C>& s) {
    const size_t n = s.n; const uint64_t N = n;
    static std::vector<T> src; while (src.size() < 64) src.push_back(T(kNew));
    auto many = [&](size_t k) { while (src.size() < k) src.push_back(T(kNew)); return src.data(); };
    const uint64_t step = 24;                                // accesses a step costs on average
    outcome("height " + std::to_string(s.seq(0).height()));
    // single edits, at every position
    for (size_t p : n <= 60 ? positions(n + 1, C::segmax) : few_positions(n + 1, C::segmax, 40)) {
      auto one = [&](size_t h) { return Bound{edit_work, 0, edit_look(h)}; };
      if (run(s, 0, "insert", p, 0, [p](S& c) { c.insert(c.nth(p), T(kNew)); }, one)) return;
      if (p < n && run(s, 0, "erase", p, 0, [p](S& c) { c.erase(c.nth(p)); }, one)) return;
      if (p == n) { if (run(s, 0, "push_back", p, 0, [](S& c) { c.push_back(T(kNew)); }, one)) return; if (n && run(s, 0, "pop_back", p, 0, [](S& c) { c.pop_back(); }, one)) return; }
      if (p == 0) { if (run(s, 0, "push_front", p, 0, [](S& c) { c.push_front(T(kNew)); }, one)) return; if (n && run(s, 0, "pop_front", p, 0, [](S& c) { c.pop_front(); }, one)) return; }
      for (size_t k : {size_t(0), size_t(1), size_t(3), 2 * C::segmax + 1, n > 200 ? size_t(400) : n}) {
        auto bk = [&](size_t h) { return Bound{k * edit_work + 16, 0, k * edit_look(h) + 2 * edit_look(h)}; };
        const T* q = many(k);
        if (run(s, 0, "insert(count)", p, k, [=](S& c) { c.insert(c.nth(p), k, q[0]); }, bk)) return;
        if (run(s, 0, "insert(range)", p, k, [=](S& c) { c.insert(c.nth(p), q, q + k); }, bk)) return;
        if (p + k <= n && run(s, 0, "erase(range)", p, k, [=](S& c) { c.erase(c.nth(p), c.nth(p + k)); }, bk)) return;
      }
    }
    // constructors and assignments
    {
      auto all = [&](size_t h) { return Bound{N * edit_work + 16, 0, N * edit_look(h) + step * N + 4 * edit_look(h)}; };
      S* d = &Maker<C>::at(2);
      auto gone = [&] { d->~S(); };
      const T* q = many(n);
      if (run(s, 1, "seq(const seq&)", n, 0, [=](S& c) { new (W().slot[2]) S(const_cast<const S&>(c)); }, all)) return; gone();
      if (run(s, 1, "seq(range)", n, 0, [=](S&) { new (W().slot[2]) S(q, q + n); }, all)) return; gone();
      if (run(s, 1, "seq(count,value)", n, 0, [=](S&) { new (W().slot[2]) S(n, q[0]); }, all)) return; gone();
      if (run(s, 1, "seq(count)", n, 0, [=](S&) { new (W().slot[2]) S(n); }, all)) return; gone();
      if (run(s, 1, "seq(seq&&)", n, 0, [=](S& c) { new (W().slot[2]) S(std::move(c)); }, [](size_t) { return Bound{0, 0, 0}; })) return; gone();
      for (size_t k : {size_t(0), n / 2, n ? n - 1 : 0, n, n + 1, n + n / 2 + 1}) {
        uint64_t diff = k > n ? k - n : n - k, both = k < n ? k : n;
        const T* r = many(k);
        auto as = [&](size_t h) { return Bound{diff * edit_work + 2 * both + 16, 0, diff * edit_look(h) + step * both + 4 * edit_look(h)}; };
        if (run(s, 2, "assign(count,value)", k, 0, [=](S& c) { c.assign(k, r[0]); }, as)) return;
        if (run(s, 2, "assign(range)", k, 0, [=](S& c) { c.assign(r, r + k); }, as)) return;
        auto rs = [&](size_t h) { return Bound{diff * edit_work + 16, 0, diff * edit_look(h) + 4 * edit_look(h)}; };
        if (run(s, 11, "resize(count,value)", k, 0, [=](S& c) { c.resize(k, r[0]); }, rs)) return;
        if (run(s, 11, "resize(count)", k, 0, [=](S& c) { c.resize(k); }, rs)) return;
      }
    }
    {
      size_t segs, nodes; most_blocks<C>(n, segs, nodes);
      auto lin = [&](size_t) { return Bound{2 * N + 8, 0, (uint64_t(nodes) + 1) * 8 * (C::basemax + 4)}; };
      if (run(s, 3, "clear", n, 0, [](S& c) { c.clear(); }, lin)) return;
      if (run(s, 3, "assign nothing", n, 0, [](S& c) { c = S(); }, lin)) return;
    }
    // comparisons with a copy that differs at one place, at the end or nowhere
    for (size_t at : {size_t(0), n / 2, n, n + 1}) {
      S& c = s.fresh();
      S& d = *new (W().slot[3]) S(const_cast<const S&>(c));
      if (at < n) d.nth(at)->v += 1; else if (at == n + 1) d.push_back(T(kNew));
      const S &l = c, &r = d;
      volatile int sink = 0;
      for (int w = 0; w < 12; ++w) {
        static const char* nm[] = {"==", "!=", "<", "<=", ">", ">="};
        set_op(nm[w % 6], at, w / 6); R.transitions++;
        const S& x = w < 6 ? l : r; const S& y = w < 6 ? r : l;
        Spent a = spent_now();
        switch (w % 6) { case 0: sink = sink + (x == y); break; case 1: sink = sink + (x != y); break; case 2: sink = sink + (x < y); break; case 3: sink = sink + (x <= y); break; case 4: sink = sink + (x > y); break; case 5: sink = sink + (x >= y); break; }
        Spent b = spent_now();
        check(4, a, b, Bound{0, w % 6 < 2 ? N : 2 * N, 4 * step * N + 4 * edit_look(c.height() > d.height() ? c.height() : d.height())}, n);
        if (settle()) return;
      }
      d.~S();
    }
    // algorithms, on several patterns of values
    unsigned lg = log2up(n + 1);
    for (int pat = 0; pat < 6; ++pat) {
      auto value = [&](size_t i) -> uint32_t { switch (pat) { case 0: return uint32_t(i); case 1: return uint32_t(n - i); case 2: return 5; case 3: return uint32_t(i % 2); case 4: return uint32_t(i * 7919 % (n + 1)); default: return uint32_t(i / 3); } };
      auto fill = [&](S& c) { size_t i = 0; for (auto it = c.begin(), e = c.end(); it != e; ++it) it->v = value(i++); };
      auto algo = [&](int group, const char* nm, auto f, auto bound) {
        set_op(nm, pat);
        S& c = s.fresh(); fill(c); R.transitions++;
        size_t h = c.height();
        Spent x = spent_now(); f(c); Spent y = spent_now();
        uint64_t k = n - c.size();
        if (y.blocks != x.blocks) err("a-cost", "%llu blocks were requested", (unsigned long long)(y.blocks - x.blocks));
        check(group, x, y, bound(h, k), n);
        return settle();
      };
      if (algo(5, "reverse", [](S& c) { c.reverse(); }, [&](size_t h, uint64_t) { return Bound{4 * N + 4, 0, 2 * step * N + 2 * edit_look(h)}; })) return;
      auto lin = [&](size_t h, uint64_t k) { return Bound{4 * N + k * edit_work + 8, N, 4 * step * N + k * edit_look(h) + 4 * edit_look(h)}; };
      if (algo(6, "remove(value)", [](S& c) { T x(1); c.remove(x); }, lin)) return;
      if (algo(6, "remove(element)", [](S& c) { if (c.size()) c.remove(c.back()); }, lin)) return;
      if (algo(6, "remove_if(third)", [](S& c) { c.remove_if([](const T& t) { ++g_cmp; return t.v % 3 == 0; }); }, lin)) return;
      if (algo(6, "remove_if(none)", [](S& c) { c.remove_if([](const T&) { ++g_cmp; return false; }); }, lin)) return;
      if (algo(6, "remove_if(all)", [](S& c) { c.remove_if([](const T&) { ++g_cmp; return true; }); }, lin)) return;
      if (algo(6, "unique", [](S& c) { c.unique(); }, lin)) return;
      if (algo(6, "unique(half)", [](S& c) { c.unique([](const T& a, const T& b) { ++g_cmp; return a.v / 2 == b.v / 2; }); }, lin)) return;
      for (int mem = 0; mem < 2; ++mem) {
        g_refuse = mem == 1;
        uint64_t per = mem ? uint64_t(lg + 2) * (lg + 2) : lg + 4;
        auto so = [&](size_t h, uint64_t) { return Bound{4 * N * per + 16, 2 * N * per + 4, (mem ? 4 * C::basemax + 24 : 2 * step) * N * per + 8 * edit_look(h)}; };
        bool stop = algo(7, mem ? "sort, no temporary memory" : "sort", [](S& c) { c.sort(); }, so);
        g_refuse = false;
        if (stop) return;
      }
    }
    // with a second sequence
    for (size_t m : {size_t(0), size_t(1), n / 2, n, n > 300 ? size_t(300) : 2 * n + 5}) {
      const uint64_t M = m;
      for (int way = 0; way < 8; ++way) {
        static const char* nm[] = {"merge", "merge, interleaved", "merge, before", "splice(front)", "splice(back)", "splice(range)", "splice(one)", "= const seq&"};
        set_op(nm[way], m); R.transitions++;
        S& c = s.fresh(); S& d = *new (W().slot[3]) S();
        for (size_t i = 0; i < m; ++i) d.push_back(T(uint32_t(way == 0 ? 2 * (n + i) : way == 1 ? (m ? 2 * (i * n / m) + 1 : 0) : 0)));
        { size_t i = 0; for (auto it = c.begin(), e = c.end(); it != e; ++it) it->v = uint32_t(2 * i++ + 1); }
        size_t h = c.height() > d.height() ? c.height() : d.height();
        Spent x = spent_now();
        switch (way) {
          case 0: case 1: case 2: c.merge(d); break;
          case 3: c.splice(c.begin(), d); break;
          case 4: c.splice(c.end(), d); break;
          case 5: c.splice(c.nth(n / 2), d, d.nth(m / 3), d.nth(m - m / 3)); break;
          case 6: if (m) c.splice(c.nth(n / 2), d, d.nth(m / 2)); break;
          case 7: c = const_cast<const S&>(d); break;
        }
        Spent y = spent_now();
        if (c.height() > h) h = c.height();
        uint64_t moved = way == 5 ? m - 2 * (m / 3) : way == 6 ? (m ? 1 : 0) : way == 7 ? (m > n ? m - n : n - m) : M;
        Bound b{2 * moved * edit_work + 16, 0, 2 * moved * edit_look(h) + step * M + 8 * edit_look(h)};
        if (way < 3) { b.work += 6 * (N + M); b.cmp = 2 * (N + M) + 2; b.look += 3 * step * (N + M); }
        if (way == 7) { b.work += 2 * (N + M); b.look += 2 * step * (N + M); }
        check(way < 3 ? 8 : way == 7 ? 2 : 9, x, y, b, n);
        if (settle()) return;
        d.~S();
      }
    }
  }
};
void go() {
  focus({"a-"});
#if PART == 1
  BFS("counting 1,3", 23, 27, FCfg<Cn, 1, 3>);
  FROM("tall 1,3", fills({64, 300}), 1, 2, FCfg<Cn, 1, 3>);
#elif PART == 2
  BFS("counting 2,3", 13, 15, FCfg<Cn, 2, 3>);
  FROM("tall 2,3", fills({800, 4000}), 0, 1, FCfg<Cn, 2, 3>);
#elif PART == 3
  BFS("counting 3,4", 21, 25, FCfg<Cn, 3, 4>);
  FROM("counting 8,6", fills({20, 45, 70}), 1, 1, FCfg<Cn, 8, 6>);
  FROM("many 4,5", fills({2000, 9000}), 0, 1, FCfg<Cn, 4, 5>);
#elif PART == 4
  BFS("counting 4,3", 17, 21, FCfg<Cn, 4, 3>);
  FROM("many 16,12", fills({3000, 60000}), 0, 0, FCfg<Cn, 16, 12>);
#elif PART == 5
  FROM("default", fills({500, 6000, 20000, 80000}), 0, 0, FCfg<Cn, 256, 47, size_t, 1024, 768>);
#elif PART == 6
  FROM("tall 1,3 many", fills({2000, 6000}), 0, 0, FCfg<Cn, 1, 3>);
  FROM("wide 2,100", fills({3000, 30000}), 0, 0, FCfg<Cn, 2, 100>);
#endif
  for (int i = 0; i < 12; ++i) if (*kTop[i]) R.counts[std::string(kTop[i]) + ", % of bound"] = g_top[i];
}
MC_MAIN(go())
