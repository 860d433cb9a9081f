// parts: 5
// rule: in every state, filled with every pattern of keys of a family, some sixty algorithms (the standard ones and a few written out) run over every subrange, given by mutable, const or reverse iterators, and their results, the positions they return and everything outside the subrange are compared with the same algorithm on a plain array
// assume: the algorithms of the installed standard library are correct for conforming iterators
// C34: standard algorithms work on any subrange as on an array.
#include "../suite.hpp"
#include <numeric>
#include <functional>
using namespace mc;
template <class T> struct ByVal { bool operator()(const T& a, const T& b) const { return val(a) < val(b); } };
template <class C> struct V {
  static constexpr int less = 0;
  using S = typename C::Seq; using T = typename C::T;
  using VT = std::vector<T>;
  static constexpr bool cp = El<T>::copyable;
  static VT array(const Vec& m) { VT v; v.reserve(m.size() + 1); for (auto x : m) v.push_back(mk<T>(x)); return v; }
  static bool same(S& c, const VT& v, const char* what) {
    if (c.size() != v.size()) { err("contents", "size() is %zu, expected %zu", size_t(c.size()), v.size()); return false; }
    size_t i = 0;
    for (auto it = c.begin(), e = c.end(); it != e; ++it, ++i) if (val(*it) != val(v[i])) { err("contents", "%s: element %zu is %u, in an array it is %u", what, i, val(*it), val(v[i])); return false; }
    return true;
  }
  // One algorithm on the subrange [i,j), through forward or reverse iterators; it returns a position or a number.
  template <class Alg> static bool both(State<C>& s, const char* nm, size_t i, size_t j, const Vec& m, bool rev, Alg alg) {
    set_op(nm, long(i), long(j));
    snprintf(R.extra, sizeof R.extra, "%svalues %s", rev ? "reverse iterators, " : "", show<uint32_t>(m).c_str());
    S& c = s.fresh(); Maker<C>::relabel(0, m); R.transitions++;
    VT v = array(m);
    long a, b;
    if (!rev) { a = long(alg(c.begin() + ptrdiff_t(i), c.begin() + ptrdiff_t(j))); b = long(alg(v.begin() + ptrdiff_t(i), v.begin() + ptrdiff_t(j))); }
    else { a = long(alg(c.rbegin() + ptrdiff_t(i), c.rbegin() + ptrdiff_t(j))); b = long(alg(v.rbegin() + ptrdiff_t(i), v.rbegin() + ptrdiff_t(j))); }
    R.checks++;
    if (a != b) err("contents", "%s gives %ld, on an array %ld", nm, a, b); else same(c, v, nm);
    return settle();
  }
  // Reading only, through const iterators too.
  template <class Alg> static bool read(State<C>& s, const char* nm, size_t i, size_t j, const Vec& m, Alg alg) {
    set_op(nm, long(i), long(j));
    snprintf(R.extra, sizeof R.extra, "values %s", show<uint32_t>(m).c_str());
    S& c = s.seq(0); R.transitions++;
    VT v = array(m); const S& k = c; const VT& kv = v;
    long x = long(alg(kv.begin() + ptrdiff_t(i), kv.begin() + ptrdiff_t(j))), y = long(alg(kv.rbegin() + ptrdiff_t(i), kv.rbegin() + ptrdiff_t(j)));
    R.checks++;
    long g[4] = {long(alg(c.begin() + ptrdiff_t(i), c.begin() + ptrdiff_t(j))), long(alg(k.cbegin() + ptrdiff_t(i), k.cbegin() + ptrdiff_t(j))),
                 long(alg(c.rbegin() + ptrdiff_t(i), c.rbegin() + ptrdiff_t(j))), long(alg(k.crbegin() + ptrdiff_t(i), k.crbegin() + ptrdiff_t(j)))};
    for (int w = 0; w < 4; ++w) if (g[w] != (w < 2 ? x : y)) { err("contents", "%s gives %ld through %s iterators, on an array %ld", nm, g[w], w == 0 ? "mutable" : w == 1 ? "const" : w == 2 ? "reverse" : "const reverse", w < 2 ? x : y); break; }
    return settle();
  }
  static bool edits(State<C>& s, size_t i, size_t j, const Vec& m) {
    ByVal<T> lt;
    for (int rev = 0; rev < 2; ++rev) {
#define ALG(name, ...) if (both(s, name, i, j, m, rev, [&](auto f, auto l) { (void)f; (void)l; __VA_ARGS__; })) return true;
      ALG("std::sort", std::sort(f, l, lt); return 0)
      ALG("std::stable_sort", std::stable_sort(f, l, [](const T& a, const T& b) { return val(a) / 2 < val(b) / 2; }); return 0)
      ALG("std::partial_sort", std::partial_sort(f, f + (l - f) / 2, l, lt); return 0)
      ALG("std::nth_element", if (f != l) std::nth_element(f, f + (l - f) / 3, l, lt); return 0)
      ALG("heap", std::make_heap(f, l, lt); bool ok = std::is_heap(f, l, lt); if (f != l) std::pop_heap(f, l, lt); if (f != l) std::push_heap(f, l, lt); std::sort_heap(f, l, lt); return ok)
      ALG("std::rotate", auto r = std::rotate(f, f + (l - f) / 3, l); return r - f)
      ALG("std::rotate by one", auto r = std::rotate(f, f == l ? f : f + 1, l); return r - f)
      ALG("std::reverse", std::reverse(f, l); return 0)
      ALG("std::partition", auto r = std::partition(f, l, [](const T& t) { return val(t) % 2 == 0; }); return r - f)
      ALG("std::stable_partition", auto r = std::stable_partition(f, l, [](const T& t) { return val(t) % 2 == 1; }); return r - f)
      ALG("std::inplace_merge", auto mid = f + (l - f) / 2; std::sort(f, mid, lt); std::sort(mid, l, lt); std::inplace_merge(f, mid, l, lt); return 0)
      ALG("std::remove_if", auto r = std::remove_if(f, l, [](const T& t) { return val(t) % 3 == 0; }); for (auto x = r; x != l; ++x) El<T>::put(*x, 9); return r - f)
      ALG("std::unique", auto r = std::unique(f, l, [](const T& a, const T& b) { return val(a) / 2 == val(b) / 2; }); for (auto x = r; x != l; ++x) El<T>::put(*x, 9); return r - f)
      ALG("std::next_permutation", bool r = std::next_permutation(f, l, lt); r = std::prev_permutation(f, l, lt) + 2 * r; return r)
      ALG("std::swap_ranges", auto half = (l - f) / 2; auto r = std::swap_ranges(f, f + half, l - half); return r - f)
      ALG("std::move down", if (l - f > 1) { auto r = std::move(f + 1, l, f); El<T>::put(*(l - 1), 9); return long(r - f); } return 0L)
      ALG("std::move_backward", if (l - f > 2) { auto r = std::move_backward(f, l - 2, l); El<T>::put(*f, 9); El<T>::put(*(f + 1), 9); return long(r - f); } return 0L)
      ALG("std::iter_swap", if (f != l) std::iter_swap(f, l - 1); return 0)
      ALG("std::for_each", uint32_t k = 0; std::for_each(f, l, [&](T& t) { El<T>::put(t, val(t) + k++); }); return 0)
      ALG("swaps written out", auto a = f, b = l; long k = 0; while (a < b) { if (--b - a < 1) break; auto x = a++; std::iter_swap(x, b); ++k; } return k)
      ALG("bubbles written out", for (auto e = l; e != f; e--) for (auto a = f; a + 1 < e; a++) { auto b = a; if (lt(*++b, *a)) { T t(std::move(*a)); *a = std::move(*b); *b = std::move(t); } } return 0)
      ALG("std::shuffle", struct Lcg { using result_type = uint32_t; uint32_t x = 12345; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffff; } uint32_t operator()() { return x = x * 1664525u + 1013904223u; } } g; std::shuffle(f, l, g); return 0)
      ALG("moved out and back", std::vector<T> o(std::make_move_iterator(f), std::make_move_iterator(l)); std::reverse(o.begin(), o.end()); auto x = f; for (auto& t : o) *x++ = std::move(t); return x - f)
      if constexpr (cp) {
        ALG("std::adjacent_difference", auto r = std::adjacent_difference(f, l, f, [](const T& a, const T& b) { return mk<T>((val(a) * 3 + val(b)) % 250); }); return r - f)
        ALG("std::partial_sum", auto r = std::partial_sum(f, l, f, [](const T& a, const T& b) { return mk<T>((val(a) * 3 + val(b)) % 250); }); return r - f)
        ALG("std::merge", std::vector<T> o; auto mid = f + (l - f) / 2; std::sort(f, mid, lt); std::sort(mid, l, lt); std::merge(f, mid, mid, l, std::back_inserter(o), lt); std::copy(o.begin(), o.end(), f); return 0)
        ALG("std::copy down", if (l - f > 1) return long(std::copy(f + 1, l, f) - f); return 0L)
        ALG("std::copy_backward", if (l - f > 1) return long(std::copy_backward(f, l - 1, l) - f); return 0L)
        ALG("std::fill", std::fill(f, l, mk<T>(7)); return 0)
        ALG("std::fill_n", auto r = std::fill_n(f, (l - f) / 2, mk<T>(6)); return r - f)
        ALG("std::generate", uint32_t k = 3; std::generate(f, l, [&] { return mk<T>(k++); }); return 0)
        ALG("std::transform", auto r = std::transform(f, l, f, [](const T& t) { return mk<T>(val(t) * 3 + 1); }); return r - f)
        ALG("std::replace_if", std::replace_if(f, l, [](const T& t) { return val(t) == 1; }, mk<T>(8)); return 0)
        ALG("std::set_union", std::sort(f, l, lt); std::vector<T> o; auto mid = f + (l - f) / 2; std::set_union(f, mid, mid, l, std::back_inserter(o), lt); long h = 0; for (auto& t : o) h = h * 11 + long(val(t)); return h)
        ALG("std::partial_sort_copy", std::vector<T> o(size_t(l - f) / 2, mk<T>(0)); std::partial_sort_copy(f, l, o.begin(), o.end(), lt); std::move(o.begin(), o.end(), f); return 0)
      }
#undef ALG
    }
    return false;
  }
  static bool reads(State<C>& s, size_t i, size_t j, const Vec& m) {
    ByVal<T> lt;
#define ALG(name, ...) if (read(s, name, i, j, m, [&](auto f, auto l) { (void)f; (void)l; __VA_ARGS__; })) return true;
    ALG("std::distance, next, prev, advance", auto x = std::next(f, std::distance(f, l)); std::advance(x, f - l); return 10 * (x == f) + (std::prev(l, l - f) == f))
    ALG("std::find_if", return std::find_if(f, l, [](const T& t) { return val(t) == 1; }) - f)
    ALG("std::count_if", return std::count_if(f, l, [](const T& t) { return val(t) == 2; }))
    ALG("std::accumulate", return std::accumulate(f, l, 0L, [](long a, const T& t) { return (a * 31 + long(val(t))) % 1000003; }))
    ALG("std::min_element, max_element", if (f == l) return 0L; return (std::min_element(f, l, lt) - f) * 1000 + (std::max_element(f, l, lt) - f))
    ALG("std::is_sorted_until", return std::is_sorted_until(f, l, lt) - f)
    ALG("std::adjacent_find", return std::adjacent_find(f, l, [](const T& a, const T& b) { return val(a) == val(b); }) - f)
    ALG("std::search", auto half = f + (l - f) / 2; return std::search(f, l, half, l, [](const T& a, const T& b) { return val(a) == val(b); }) - f)
    ALG("std::find_end", auto third = f + (l - f) / 3; return std::find_end(f, l, f, third, [](const T& a, const T& b) { return val(a) == val(b); }) - f)
    ALG("std::search_n", return std::search_n(f, l, 2, 1u, [](const T& a, uint32_t b) { return val(a) == b; }) - f)
    ALG("std::mismatch", auto half = f + (l - f) / 2; auto r = std::mismatch(f, half, half, [](const T& a, const T& b) { return val(a) == val(b); }); return r.first - f)
    ALG("std::equal", return std::equal(f, l, f, [](const T& a, const T& b) { return val(a) == val(b); }))
    ALG("std::partition_point", auto e = std::is_sorted_until(f, l, lt); return std::partition_point(f, e, [](const T& t) { return val(t) < 2; }) - f)
    ALG("std::lower_bound, upper_bound", auto e = std::is_sorted_until(f, l, lt); long h = 0; for (uint32_t v = 0; v < 4; ++v) { h = h * 100 + (std::lower_bound(f, e, v, [](const T& a, uint32_t b) { return val(a) < b; }) - f); h = h * 100 + (std::upper_bound(f, e, v, [](uint32_t b, const T& a) { return b < val(a); }) - f); } return h)
    ALG("std::lexicographical_compare", auto half = f + (l - f) / 2; return std::lexicographical_compare(f, half, half, l, lt) + 2 * std::lexicographical_compare(half, l, f, half, lt))
    ALG("std::is_permutation", return std::is_permutation(f, l, f, [](const T& a, const T& b) { return val(a) == val(b); }))
    ALG("every expression of an iterator", long h = 0; auto mix = [&h](long x) { h = (h * 31 + x) % 1000003; }; auto d = l - f;
        for (auto x = f; x != l;) { auto y = x++; mix(y - f); mix(x - y); mix(long(val(*y))); }
        for (auto x = l; x != f;) { auto y = x--; mix(y - f); mix(y - x); mix(long(val(*x))); }
        for (auto x = f; x != l;) mix(long(val(*x++)));
        for (auto x = l; x != f;) mix(long(val(*--x)));
        if (f != l) { auto x = f; auto b = *std::addressof(x); mix((++x) - b); mix(x-- - f); mix(x++ - f); mix((--x) - f); mix(x == f); }
        for (decltype(d) a = 0; a < d; ++a) { mix(long(val(f[a]))); mix(long(val(l[a - d]))); mix(long(val(*(a + f)))); mix(long(val(*(l - (d - a))))); auto x = f; auto y = l; mix((x += a) - f); mix(l - (y -= d - a)); mix(x == y); mix(x != y); mix(x < l); mix(x <= y); mix(x > f); mix(x >= y); mix(f < x); mix(f >= x); mix(long(val(*(x.operator->())))); }
        return h)
    ALG("std::inner_product", auto g = f; return std::inner_product(f, l, g, 1L, [](long a, long b) { return (a * 31 + b) % 1000003; }, [](const T& a, const T& b) { return long(val(a) * 7 + val(b)); }))
    ALG("std::includes", auto e = std::is_sorted_until(f, l, lt); auto mid = f + (e - f) / 2; return std::includes(f, e, mid, e, lt) + 2 * std::includes(mid, e, f, e, lt))
    ALG("std::find_first_of", auto mid = f + (l - f) / 2; return std::find_first_of(f, mid, mid, l, [](const T& a, const T& b) { return val(a) == val(b); }) - f)
    ALG("std::is_heap_until", return std::is_heap_until(f, l, lt) - f)
    ALG("std::minmax_element", auto r = std::minmax_element(f, l, lt); return (r.first - f) * 1000 + (r.second - f))
    if constexpr (cp) ALG("std::vector(range)", std::vector<T> o(f, l); long h = long(o.size()); for (auto& t : o) h = (h * 31 + long(val(t))) % 1000003; return h)
    if constexpr (cp) ALG("back_inserter of a sequence", S o; std::copy(f, l, std::back_inserter(o)); std::reverse_copy(f, l, std::front_inserter(o)); std::copy(f, l, std::inserter(o, o.nth(o.size() / 2))); long h = long(o.size()); for (auto& t : o) h = (h * 31 + long(val(t))) % 1000003; return h)
#undef ALG
    return false;
  }
  static void visit(State<C>& s) {
    size_t n = s.n;
    Vec m(n);
    for (int pat = 0; pat < (n <= 10 ? 6 : 3); ++pat) {
      for (size_t i = 0; i < n; ++i) switch (pat) { case 0: m[i] = uint32_t(i * 5 % 7); break; case 1: m[i] = uint32_t(i % 3); break; case 2: m[i] = uint32_t((n - i) % 200); break; case 3: m[i] = uint32_t(i / 2); break; case 4: m[i] = 1; break; default: m[i] = uint32_t((i * i + 3 * i) % 5); }
      auto ps = n <= 12 ? positions(n + 1, C::segmax) : few_positions(n + 1, C::segmax, n > 300 ? 3 : 6, 12);
      for (size_t i : ps) for (size_t j : ps) if (i <= j) if (edits(s, i, j, m)) return;
      s.fresh(); Maker<C>::relabel(0, m);
      for (size_t i : ps) for (size_t j : ps) if (i <= j) if (reads(s, i, j, m)) return;
    }
  }
};
void go() {
#if PART == 1
  BFS("u32 1,3", 15, 18, Cfg<uint32_t, 1, 3>);
  BFS("u32 3,3", 12, 16, Cfg<uint32_t, 3, 3>);
#elif PART == 2
  BFS("u32 2,3", 9, 11, Cfg<uint32_t, 2, 3>);
#elif PART == 3
  BFS("Trk 2,3", 8, 9, Cfg<TF, 2, 3>);
  BFS("Trk 3,3", 10, 13, Cfg<TF, 3, 3>);
#elif PART == 4
  BFS("move-only 2,3", 8, 9, Cfg<TM, 2, 3>);
  BFS("move-only 4,3", 11, 14, Cfg<TM, 4, 3>);
  BFS("bytes 3,4", 10, 14, Cfg<uint8_t, 3, 4>);
#elif PART == 5
  FROM("tall u32 2,3", fills({40, 100}), 0, 1, Cfg<uint32_t, 2, 3>);
  FROM("u32 8,6", fills({20, 70}), 1, 1, Cfg<uint32_t, 8, 6>);
  FROM("default u64", fills({128, 129, 1000}, false), 0, 0, StdCfg<uint64_t, 128, 47, 1024, 768>);
  BFS("std::allocator string 3,3", 9, 12, StdCfg<std::string, 3, 3>);
#endif
}
MC_MAIN(go())
