// parts: 7
// rule: every state of the bounded space is filled with every pattern of values (all of {0,1,2}^n for small n, all of {0,1}^n for larger, structural families beyond) and every removal, unique and reverse runs on it with every value, every element of the sequence itself as the value, and every predicate of a family
// C22: remove, remove_if, unique and reverse do exactly what they say.
#include "../faults.hpp"
using namespace mc;
using TS = Trk<CPY | MOV | DFL | 64>;                // identity in the low half; equality of keys below
using TSM = Trk<MOV | DFL | 64>;
namespace mc {
template <int K> typename std::enable_if<(K & 64) != 0 && (K & CMP) == 0, bool>::type operator==(const Trk<K>& x, const Trk<K>& y) { x.b.need("comparison"); y.b.need("comparison"); return (x.b.v >> 16) == (y.b.v >> 16); }
}
inline uint32_t lab(uint32_t key, size_t i) { return uint32_t(key << 16 | (i + 1)); }
inline uint32_t key(uint32_t v) { return v >> 16; }
template <class T> struct keyed { static constexpr bool value = false; };
template <int K> struct keyed<Trk<K>> { static constexpr bool value = (K & 64) != 0; };
template <class C> struct V {
  static constexpr int less = 0;
  using S = typename C::Seq; using T = typename C::T;
  static constexpr bool kk = keyed<T>::value;
  static uint32_t label(uint32_t k, size_t i) { return kk ? lab(k, i) : k; }
  static uint32_t kof(uint32_t v) { return kk ? key(v) : v; }
  static bool judge(State<C>& s, const char* nm, long a, const Vec& ks, const Vec& ex, bool full, func_ref<void(S&)> f, bool rvalue_ok = true) {
    (void)rvalue_ok;
    set_op(nm, a);
    Vec m(s.n); for (size_t i = 0; i < s.n; ++i) m[i] = label(ks[i], i);
    snprintf(R.extra, sizeof R.extra, "values %s", show<uint32_t>(ks).c_str());
    S& c = s.fresh(); Maker<C>::relabel(0, m);
    R.transitions++;
    World& w = W(); uint64_t cp = w.copies + w.cassigns, dd = w.dflt;
    std::vector<const void*> at;
    bool same = ex.size() == s.n && ex == m;
    if (same) for (auto it = c.begin(), e = c.end(); it != e; ++it) at.push_back(std::addressof(*it));
    f(c);
    if (El<T>::tracked && El<T>::movable && w.copies + w.cassigns > cp + (strcmp(nm, "remove(element)") ? 0 : 1)) err("copied", "elements were copied where they could be moved");
    if (El<T>::tracked && w.dflt != dd) err("made", "elements were made anew");
    if (full) full_contents(c, ex); else same_contents(c, ex);
    if (same && strcmp(nm, "reverse") && !g_err.set) { size_t i = 0; for (auto it = c.begin(), e = c.end(); it != e; ++it, ++i) if (at[i] != std::addressof(*it)) { err("changed", "nothing matched, but an element moved"); break; } }
    monitors<C>(ex.size());
    return !settle();
  }
  static bool on_pattern(State<C>& s, const Vec& ks, uint32_t top, bool full) {
    size_t n = s.n;
    Vec m(n); for (size_t i = 0; i < n; ++i) m[i] = label(ks[i], i);
    Vec ex;
    auto keep = [&](auto pred) { ex.clear(); for (size_t i = 0; i < n; ++i) if (!pred(ks[i])) ex.push_back(m[i]); };
    for (uint32_t v = 0; v <= top + 1; ++v) {
      keep([&](uint32_t x) { return x == v; });
      if constexpr (El<T>::cmp || kk) {
        auto f = [v](S& c) { Tmp<T> x(label(v, 999)); c.remove(const_cast<const T&>(x.get())); };
        if (!judge(s, "remove(value)", v, ks, ex, full, f)) return false;
      }
      auto g = [v](S& c) { c.remove_if([v](const T& t) { return kof(val(t)) == v; }); };
      if (!judge(s, "remove_if(==)", v, ks, ex, full, g)) return false;
      keep([&](uint32_t x) { return x != v; });
      auto h = [v](S& c) { c.remove_if([v](const T& t) { return kof(val(t)) != v; }); };
      if (!judge(s, "remove_if(!=)", v, ks, ex, full, h)) return false;
    }
    if constexpr (El<T>::copyable && (El<T>::cmp || kk))
      for (size_t i : few_positions(n, C::segmax, 10, 24)) {
        keep([&](uint32_t x) { return x == ks[i]; });
        auto f = [i](S& c) { c.remove(c[i]); };
        if (!judge(s, "remove(element)", long(i), ks, ex, full, f)) return false;
      }
    ex.clear(); for (size_t i = 0; i < n; ++i) if (i == 0 || ks[i] != kof(ex.back())) ex.push_back(m[i]);
    if constexpr (El<T>::cmp || kk) { auto f = [](S& c) { c.unique(); }; if (!judge(s, "unique()", 0, ks, ex, full, f)) return false; }
    { auto f = [](S& c) { c.unique([](const T& a, const T& b) { return kof(val(a)) == kof(val(b)); }); }; if (!judge(s, "unique(==)", 0, ks, ex, full, f)) return false; }
    // a symmetric predicate that is not transitive tells the retained element from the one just before
    struct Rel { const char* nm; bool (*f)(uint32_t, uint32_t); };
    static const Rel rels[] = {{"unique(|difference|<=1)", [](uint32_t a, uint32_t b) { return a <= b + 1 && b <= a + 1; }},
                               {"unique(always)", [](uint32_t, uint32_t) { return true; }}, {"unique(never)", [](uint32_t, uint32_t) { return false; }}, {"unique(differ)", [](uint32_t a, uint32_t b) { return a != b; }}};
    for (auto& r : rels) {
      ex.clear(); for (size_t i = 0; i < n; ++i) if (i == 0 || !r.f(kof(ex.back()), ks[i])) ex.push_back(m[i]);
      auto pf = r.f;
      auto f = [pf](S& c) { c.unique([pf](const T& a, const T& b) { return pf(kof(val(a)), kof(val(b))); }); };
      if (!judge(s, r.nm, 0, ks, ex, full, f)) return false;
    }
    ex.assign(m.rbegin(), m.rend());
    { auto f = [](S& c) { c.reverse(); }; if (!judge(s, "reverse", 0, ks, ex, full, f)) return false; }
    { auto f = [](S& c) { c.reverse(); c.reverse(); }; if (!judge(s, "reverse twice", 0, ks, m, full, f)) return false; }
    return true;
  }
  static void visit(State<C>& s) {
    size_t n = s.n; Vec k(n, 0);
    size_t ternary = R.thorough() ? 8 : 6, binary = R.thorough() ? 11 : 9;
    if (n <= binary) {
      unsigned radix = n <= ternary ? 3 : 2;
      for (;;) {
        if (!on_pattern(s, k, radix - 1, n <= 8)) return;
        size_t i = 0;
        while (i < n && ++k[i] == radix) k[i++] = 0;
        if (i == n) return;
      }
    }
    bool full = n <= 40;
    auto go = [&](auto f) { for (size_t i = 0; i < n; ++i) k[i] = uint32_t(f(i)); return on_pattern(s, k, 2, full); };
    if (!go([&](size_t) { return 0; }) || !go([&](size_t i) { return i % 2; }) || !go([&](size_t i) { return i % 3; }) || !go([&](size_t i) { return i / 2 % 3; }) ||
        !go([&](size_t i) { return i < n / 2; }) || !go([&](size_t i) { return i * i % 7 % 3; }) || !go([&](size_t i) { return i / C::segmin % 2; })) return;
    if (n <= 400) for (size_t p : few_positions(n, C::segmax, 12, 30)) {
      if (!go([&](size_t i) { return i == p; }) || !go([&](size_t i) { return i < p ? 1 : 2; }) || !go([&](size_t i) { return i >= p && i < p + C::segmax ? 0 : 1; })) return;
    }
  }
};
void go() {
  focus({"life-", "alloc-"});
#if PART == 1
  BFS("Trk by key 2,3", 8, 9, Cfg<TS, 2, 3>);
#elif PART == 2
  BFS("Trk by key 1,3", 11, 13, Cfg<TS, 1, 3>);
  BFS("move-only by key 3,3", 10, 13, Cfg<TSM, 3, 3>);
#elif PART == 3
  BFS("u32 2,3", 8, 10, Cfg<uint32_t, 2, 3>);
  BFS("u32 3,3", 12, 14, Cfg<uint32_t, 3, 3>);
#elif PART == 4
  BFS("copy-only 4,3", 11, 13, Cfg<TC, 4, 3>);
  BFS("Trk 5,4", 14, 18, Cfg<TF, 5, 4>);
  BFS("u32 construct/destroy 2,3", 7, 9, Cfg<uint32_t, 2, 3, A_CON | A_DES>);
#elif PART == 5
  FROM("Trk by key 8,6", fills({20, 45, 70}), 0, 1, Cfg<TS, 8, 6>);
  FROM("tall u32 2,3", fills({50, 90}), 0, 0, Cfg<uint32_t, 2, 3>);
  FROM("tall Trk by key 1,3", fills({33, 64}), 0, 0, Cfg<TS, 1, 3>);
#elif PART == 6
  FROM("default u64", fills({128, 129, 700, 3000}), 0, 0, Cfg<uint64_t, 128, 47, 0, 1024, 768>);
  FROM("default Trk", fills({64, 65, 300}), 0, 0, Cfg<TS, 64, 47, 0, 1024, 768>);
#elif PART == 7
  FROM("long u32", fills({66000}, R.thorough()), 0, 0, Cfg<uint32_t, 64, 47, 0, 256, 768>);
#endif
}
MC_MAIN(go())
