// parts: 20
// build 1: g++ -std=c++17 -O1 -D_GLIBCXX_ASSERTIONS -fno-lifetime-dse -fsanitize=undefined -fno-sanitize=vptr -DMC_UBSAN
// build 2: clang++ -std=c++17 -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined,local-bounds,nullability,float-divide-by-zero -fno-sanitize=vptr -DMC_UBSAN
// build 3: clang++ -std=c++17 -O1 -fsanitize=memory -D_GLIBCXX_EXTERN_TEMPLATE=0
// build 4: clang++ -std=c++17 -O1 -fsanitize=memory -D_GLIBCXX_EXTERN_TEMPLATE=0
// build 5: clang++ -std=c++20 -O1 -fsanitize=address -fsanitize-address-use-after-return=always -fsanitize-address-use-after-scope
// build 6: g++ -std=c++20 -O3 -DNDEBUG -ftrivial-auto-var-init=pattern
// build 7: clang++ -std=c++20 -O3 -DNDEBUG -ftrivial-auto-var-init=pattern
// build 8: g++ -std=c++17 -O0
// build 9: clang++ -std=c++17 -O0
// build 10: g++ -std=c++17 -O2 -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC -D_GLIBCXX_CONCEPT_CHECKS
// build 11: portable.cpp g++ -std=c++11 -O0
// build 12: portable.cpp clang++ -std=c++11 -O2
// build 13: portable.cpp g++ -std=c++14 -O2 -DNDEBUG
// build 14: portable.cpp clang++ -std=c++14 -O3 -DNDEBUG
// build 15: portable.cpp g++ -std=c++17 -Os -funsigned-char -fno-strict-aliasing
// build 16: portable.cpp clang++ -std=c++17 -Oz
// build 17: portable.cpp g++ -std=c++20 -O3 -march=native -ftrivial-auto-var-init=pattern
// build 18: portable.cpp clang++ -std=c++20 -O2 -ftrivial-auto-var-init=pattern
// build 19: portable.cpp g++ -std=c++23 -O2 -fwhole-program
// build 20: portable.cpp clang++ -std=c++23 -O1 -ftrivial-auto-var-init=zero
// rule: the explorers run in twenty builds: with UndefinedBehaviorSanitizer of both compilers, MemorySanitizer (fresh storage indeterminate) and AddressSanitizer with stack lifetimes watching every operation, unsanitized at every optimisation level, with the library's debug mode, and (a second explorer, in C++11) with both compilers in every standard from C++11 to C++23; every build is judged by the ideal sequence, and what was observed (contents, positions, heights, number of requests) must not differ between builds
// C31: the same program gives the same results in every build.
#include "../suite.hpp"
#include "../handles.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq;
  static void visit(State<C>& s) {
    all_ops<C>(s, [&](const Op<S>& o) { if (!((o.flags & O_ALGO) && sizeof(typename C::T) == 1)) run_plain<C>(s, o); });
    reading(s);
#if PART >= 3 && PART <= 7
    if (s.n <= 40) Handles<C>::sweep(s, s.n <= (PART == 5 ? 6u : 9u) ? 160 : 4, s.n <= 6);
#endif
  }
  static void reading(State<C>& s) {
    S& c = s.fresh(); const S& k = c; R.transitions++;
    long n = long(s.n);
    set_op("reading");
    full_contents(c, s.model);
    for (long i = 0; i <= n; ++i) {
      set_op("reading from", i);
      auto it = k.nth(size_t(i));
      for (long j = 0; j <= n; ++j) {
        auto x = it; x += j - i; auto y = it + (j - i);
        if (x != y || y - it != j - i || k.index_of(x) != size_t(j) || (it < x) != (i < j) || (it <= x) != (i <= j)) err("position", "%ld + (%ld) is not %ld", i, j - i, j);
        if (j < n && val(it[j - i]) != fold<typename C::T>(s.model[size_t(j)])) err("position", "[%ld] from %ld", j - i, i);
      }
      for (auto y = it; y != k.end(); y.move_after_segment()) if (y.end() - y.begin() < 1) { err("segments", "an empty block"); break; }
      typename S::const_iterator copy; copy = it; if (copy != it) err("position", "a copied iterator differs");
      R.checks++;
    }
    settle();
  }
};
template <class C> struct VP {
  static constexpr int less = 0;
  static void visit(State<C>& s) { ops_pair<C>(s, [&](const Op<typename C::Seq>& o) { run_plain<C>(s, o); }); }
};
template <class C> void pairs(const char* name, size_t q, size_t t) { Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, 1, 1); }
void go() {
#if PART == 3
  BFS("u32 2,3", 14, 16, Cfg<uint32_t, 2, 3>);
  BFS("u32 1,4", 19, 23, Cfg<uint32_t, 1, 4>);
  pairs<Cfg<uint32_t, 2, 3>>("pairs 2,3", 7, 9);
#elif PART == 4
  BFS("24 bytes 3,3", 19, 23, Cfg<Tv<24>, 3, 3>);
  BFS("bytes 5,4", 21, 26, Cfg<uint8_t, 5, 4>);
  FROM("default u64", fills({127, 129, 6100}, false), 0, 0, Cfg<uint64_t, 128, 47, 0, 1024, 768>);
#elif PART == 5
  BFS("Trk 2,3", 13, 15, Cfg<TF, 2, 3>);
  BFS("std::allocator string 3,3", 13, 16, StdCfg<std::string, 3, 3>);
#elif PART == 1 || PART == 2 || PART == 10
  BFS("u32 2,3", 13, 15, Cfg<uint32_t, 2, 3>);
  BFS("std::allocator string 3,3", 12, 15, StdCfg<std::string, 3, 3>);
  FROM("default u64", fills({127, 128, 129, 1000}, false), 0, 0, StdCfg<uint64_t, 128, 47, 1024, 768>);
  pairs<Cfg<uint32_t, 2, 3>>("pairs 2,3", 6, 8);
#elif PART == 8 || PART == 9
  BFS("u32 2,3", 10, 12, Cfg<uint32_t, 2, 3>);
  BFS("std::allocator string 3,3", 9, 12, StdCfg<std::string, 3, 3>);
#else
  BFS("u32 2,3", 12, 14, Cfg<uint32_t, 2, 3>);
  BFS("Tv 24 1,4", 16, 19, Cfg<Tv<24>, 1, 4>);
  FROM("default u64", fills({127, 128, 129, 1000, 6100}, false), 0, 0, StdCfg<uint64_t, 128, 47, 1024, 768>);
  pairs<StdCfg<std::string, 2, 3>>("pairs string 2,3", 4, 6);
#endif
}
MC_MAIN(go())
