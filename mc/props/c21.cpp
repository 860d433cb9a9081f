// parts: 8
// rule: every state of the bounded space is filled with every pattern of keys (all of {0,1,2}^n for small n, all of {0,1}^n for larger, structural families beyond) and sorted under every amount of temporary memory the environment can grant; every pair of states with every pair of sorted patterns is merged; results are compared with the stable rearrangement computed on plain arrays
// assume: std::stable_sort and std::inplace_merge of the installed standard library are correct for conforming random access iterators
// C21: sort and merge are stable and permute exactly.
#include "../faults.hpp"
#include <new>
// What the environment grants of temporary memory (bytes per request; the algorithms ask with nothrow).
static size_t g_grant = SIZE_MAX; static uint64_t g_denied, g_granted;
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (n > g_grant) { ++g_denied; return nullptr; } ++g_granted; return malloc(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
using namespace mc;
using TS = Trk<CPY | MOV | DFL | CMP | 64>;          // operator< looks at the key only
using TSM = Trk<MOV | DFL | CMP | 64>;
// A value carries its key in the high half and its identity in the low half.
inline uint32_t lab(uint32_t key, size_t i) { return uint32_t(key << 16 | (i + 1)); }
inline uint32_t key(uint32_t v) { return v >> 16; }
template <class T> struct by_key { static constexpr bool value = false; };
template <int K> struct by_key<Trk<K>> { static constexpr bool value = (K & 64) != 0; };
template <class Fn> void patterns(size_t n, size_t ternary, size_t binary, Fn fn) {
  Vec k(n, 0);
  unsigned radix = n <= ternary ? 3 : 2;
  if (n <= ternary || n <= binary) {
    for (;;) {
      if (!fn(k)) return;
      size_t i = 0;
      while (i < n && ++k[i] == radix) k[i++] = 0;
      if (i == n) return;
    }
  }
  auto go = [&](auto f) { for (size_t i = 0; i < n; ++i) k[i] = uint32_t(f(i)); return fn(k); };
  if (!go([&](size_t i) { return i; }) || !go([&](size_t i) { return n - i; }) || !go([&](size_t) { return 1; }) || !go([&](size_t i) { return i % 2; }) ||
      !go([&](size_t i) { return i < n / 2 ? i : n - i; }) || !go([&](size_t i) { return i < n / 2 ? n - i : i; }) || !go([&](size_t i) { return (i * 7) % 5; }) ||
      !go([&](size_t i) { return (i * 7919) % n; }) || !go([&](size_t i) { return (i + n / 2) % n; })) return;
  for (size_t step = n > 64 ? n / 16 : 1, p = 0; p < n; p += step) {
    if (!go([&](size_t i) { return i == p ? 0 : i + 1; })) return;            // one element too late
    if (!go([&](size_t i) { return i == p ? n + 1 : i + 1; })) return;        // one too early
    if (!go([&](size_t i) { return i < p ? 2 : 1; })) return;                 // two runs
  }
}
template <class C> struct V {
  static constexpr int less = 0;
  using S = typename C::Seq; using T = typename C::T;
  static constexpr size_t ternary = 6, binary = 9;
  static void visit(State<C>& s) {
    size_t n = s.n;
    std::vector<size_t> grants = {SIZE_MAX, 0};
    if (n <= 6 && n > 1) for (size_t k = 1; k < n; ++k) grants.push_back(k * sizeof(T)); else if (n > 6) { grants.push_back(sizeof(T)); grants.push_back(n / 2 * sizeof(T)); grants.push_back(n / 3 * sizeof(T)); }
    bool more = R.thorough();
    patterns(n, ternary + more, binary + 2 * more, [&](const Vec& ks) {
      Vec m(n); for (size_t i = 0; i < n; ++i) m[i] = lab(ks[i], i);
      for (size_t g = 0; g < grants.size(); ++g) {
        // 0: operator<   1: a given order   2: the reverse of it   3: a coarser one
        for (int order = 0; order < 4; ++order) {
          if (order == 0 && !El<T>::cmp) continue;
          if (g > 1 && order > 1) continue;
          auto lt = [order](uint32_t a, uint32_t b) { return order <= 1 ? key(a) < key(b) : order == 2 ? key(b) < key(a) : key(a) % 2 < key(b) % 2; };
          set_op("sort", order);
          snprintf(R.extra, sizeof R.extra, "keys %s, temporary memory %zd", show<uint32_t>(ks).c_str(), ssize_t(grants[g]));
          S& c = s.fresh(); Maker<C>::relabel(0, m);
          R.transitions++;
          World& w = W(); uint64_t cp = w.copies + w.cassigns, dd = w.dflt + w.valctor;
          g_grant = grants[g];
          if (order == 0) { if constexpr (El<T>::cmp) c.sort(); }
          else c.sort([lt](const T& a, const T& b) { return lt(val(a), val(b)); });
          g_grant = SIZE_MAX;
          if (El<T>::tracked && El<T>::movable && w.copies + w.cassigns != cp) err("copied", "elements were copied where they could be moved");
          if (El<T>::tracked && w.dflt + w.valctor != dd) err("made", "elements were made anew");
          Vec ex(m);
          if (order == 0 && !by_key<T>::value) std::sort(ex.begin(), ex.end()); else std::stable_sort(ex.begin(), ex.end(), lt);
          if (n <= 64) full_contents(c, ex); else same_contents(c, ex);
          monitors<C>(n);
          if (settle()) return false;
        }
      }
      return true;
    });
    R.counts["temporary memory refused"] = g_denied; R.counts["temporary memory granted"] = g_granted;
  }
};
// all non-decreasing patterns over {0..top}
template <class Fn> void sorted_patterns(size_t n, uint32_t top, Fn fn) {
  Vec k(n, 0);
  std::function<bool(size_t, uint32_t)> rec = [&](size_t i, uint32_t lo) { if (i == n) return bool(fn(k)); for (uint32_t v = lo; v <= top; ++v) { k[i] = v; if (!rec(i + 1, v)) return false; } return true; };
  rec(0, 0);
}
template <class C> struct VP {
  using S = typename C::Seq; using T = typename C::T;
  static void visit(State<C>& s) {
    uint32_t top = s.n + s.n2 <= 10 ? 2 : 1;
    sorted_patterns(s.n, s.n > 24 ? 0 : top, [&](const Vec& k1) {
      bool go_on = true;
      sorted_patterns(s.n2, s.n2 > 24 ? 0 : top, [&](const Vec& k2) {
        Vec a(s.n), b(s.n2);
        for (int form = 0; form < 8; ++form) {
          // bit 0: rvalue   order 0: operator<, 1: given, 2: reverse, 3: given with less temporary memory
          int order = form / 2; bool rv = form & 1;
          if (order == 0 && !El<T>::cmp) continue;
          auto lt = [order](uint32_t x, uint32_t y) { return order == 2 ? key(y) < key(x) : key(x) < key(y); };
          for (size_t i = 0; i < s.n; ++i) a[i] = lab(k1[order == 2 ? s.n - 1 - i : i], i);
          for (size_t i = 0; i < s.n2; ++i) b[i] = lab(k2[order == 2 ? s.n2 - 1 - i : i], 1000 + i);
          if (order == 0 && !by_key<T>::value) for (auto& x : b) x = x;        // distinct anyway
          for (size_t g : {SIZE_MAX, size_t(0), 2 * sizeof(T)}) {
            if (order == 3 ? g == SIZE_MAX : g != SIZE_MAX) continue;
            set_op(rv ? "merge(seq&&)" : "merge(seq&)", order);
            snprintf(R.extra, sizeof R.extra, "keys %s with %s, temporary memory %zd", show<uint32_t>(a).c_str(), show<uint32_t>(b).c_str(), ssize_t(g));
            S& c = s.fresh(); S& d = s.second(); Maker<C>::relabel(0, a); Maker<C>::relabel(1, b);
            R.transitions++;
            World& w = W(); uint64_t cp = w.copies + w.cassigns, dd = w.dflt + w.valctor;
            g_grant = g;
            auto cmp = [lt](const T& x, const T& y) { return lt(val(x), val(y)); };
            if (order == 0) { if constexpr (El<T>::cmp) { if (rv) c.merge(std::move(d)); else c.merge(d); } }
            else if (rv) c.merge(std::move(d), cmp); else c.merge(d, cmp);
            g_grant = SIZE_MAX;
            if (El<T>::tracked && El<T>::movable && w.copies + w.cassigns != cp) err("copied", "elements were copied where they could be moved");
            if (El<T>::tracked && w.dflt + w.valctor != dd) err("made", "elements were made anew");
            Vec ex;
            if (order == 0 && !by_key<T>::value) { std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(ex)); }
            else std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(ex), lt);
            if (full_contents(c, ex)) same_contents(d, Vec{}, "source");
            monitors<C>(ex.size());
            if (settle()) { go_on = false; return false; }
          }
        }
        return true;
      });
      return go_on;
    });
  }
};
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta = 1, uint32_t tb = 1) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, ta, tb);
}
template <class C> void pairs_from(const char* name, std::vector<std::vector<BOp>> f) { Explorer<C> e; e.explore_pairs_from(name, f, VP<C>::visit); }
// long sequences: more elements than 16 bits count
template <class C> struct VL {
  using S = typename C::Seq; using T = typename C::T;
  static void visit(State<C>& s) {
    size_t n = s.n; Vec m(n);
    auto each = [&](const char* nm, auto f) {
      for (size_t i = 0; i < n; ++i) m[i] = uint32_t(f(i));
      for (size_t g : {SIZE_MAX, n / 3 * sizeof(T), size_t(0)}) for (unsigned coarse : {1u, 16u, 70000u}) for (int back = 0; back < 2; ++back) {
        auto lt = [coarse, back](uint32_t a, uint32_t b) { return back ? b / coarse < a / coarse : a / coarse < b / coarse; };
        Vec ex(m); std::stable_sort(ex.begin(), ex.end(), lt);
        for (int def = 0; def < 1 + (coarse == 1 && !back); ++def) {
          set_op("sort", coarse, back); snprintf(R.extra, sizeof R.extra, "%s, temporary memory %zd", nm, ssize_t(g));
          S& c = s.fresh(); Maker<C>::relabel(0, m); R.transitions++;
          g_grant = g;
          if (def) c.sort(); else c.sort([lt](const T& a, const T& b) { return lt(val(a), val(b)); });
          g_grant = SIZE_MAX;
          same_contents(c, ex); monitors<C>(n);
          if (settle()) return false;
        }
      }
      // merged from two halves
      Vec ex(m); std::sort(ex.begin(), ex.end());
      for (size_t g : {SIZE_MAX, size_t(0)}) for (size_t h : {size_t(1), n / 2, n - 1}) {
        Vec a(m.begin(), m.begin() + h), b(m.begin() + h, m.end()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        Vec ab(a); ab.insert(ab.end(), b.begin(), b.end());
        set_op("merge(seq&)", h); snprintf(R.extra, sizeof R.extra, "%s, temporary memory %zd", nm, ssize_t(g));
        S& c = s.fresh(); Maker<C>::relabel(0, ab); R.transitions++;
        {
          S d(c.get_allocator()); d.splice(d.end(), c, c.nth(h), c.end());
          g_grant = g; c.merge(d); g_grant = SIZE_MAX;
          same_contents(d, Vec{}, "source");
        }
        same_contents(c, ex); monitors<C>(n);
        if (settle()) return false;
      }
      return true;
    };
    if (!each("ascending", [&](size_t i) { return i; }) || !each("descending", [&](size_t i) { return n - i; }) || !each("alternating", [&](size_t i) { return i % 2 ? i : n + 1 - i; })) return;
    each("strided", [&](size_t i) { return i * 7919 % n; });
  }
};
void go() {
  focus({"life-", "alloc-"});
#if PART == 1
  BFS("Trk by key 2,3", 8, 10, Cfg<TS, 2, 3>);
#elif PART == 2
  BFS("Trk by key 1,3", 10, 13, Cfg<TS, 1, 3>);
  BFS("move-only by key 3,3", 9, 12, Cfg<TSM, 3, 3>);
#elif PART == 3
  BFS("u32 3,3", 12, 15, Cfg<uint32_t, 3, 3>);
  BFS("copy-only 4,3", 10, 13, Cfg<TC, 4, 3>);
  BFS("no comparison 2,3", 6, 8, Cfg<TN, 2, 3>);
#elif PART == 4
  FROM("Trk by key 8,6", fills({20, 45, 70}), 0, 1, Cfg<TS, 8, 6>);
  FROM("tall u32 2,3", fills({50, 90}), 0, 0, Cfg<uint32_t, 2, 3>);
  FROM("default u64", fills({16, 128, 129, 700, 2000}), 0, 0, Cfg<uint64_t, 128, 47, 0, 1024, 768>);
  FROM("default Trk", fills({64, 65, 300}), 0, 0, Cfg<TS, 64, 47, 0, 1024, 768>);
#elif PART == 5
  pairs<Cfg<TS, 2, 3>>("pairs by key 2,3", 5, 6);
  pairs<Cfg<TSM, 3, 3>>("pairs move-only by key 3,3", 5, 7);
#elif PART == 6
  pairs<Cfg<TS, 1, 3>>("pairs by key 1,3", 6, 8);
  pairs<Cfg<TS, 2, 3, A_STATE>>("unequal allocators by key 2,3", 4, 5, 1, 2);
#elif PART == 7
  pairs<Cfg<uint32_t, 2, 3>>("pairs u32 2,3", 5, 6);
  pairs<Cfg<TC, 4, 3>>("pairs copy-only 4,3", 5, 7);
  pairs_from<Cfg<TS, 4, 4>>("large pairs by key 4,4", fills({9, 21}));
  pairs_from<Cfg<uint64_t, 128, 47, 0, 1024, 768>>("default u64", fills({20, 128, 300}, false));
#elif PART == 8
  from<Cfg<uint32_t, 64, 47, 0, 256, 768>>("long u32", fills({65536, 66000}, R.thorough()), 0, 0, VL<Cfg<uint32_t, 64, 47, 0, 256, 768>>::visit);
#endif
}
MC_MAIN(go())
