// parts: 14
// minimal: base pmr bareallocator
// rule: the same alphabet of operations is explored, every operation in every state and against the same ideal sequence, for every element size of a list (1 to 3000 bytes, odd ones included), every pair of targets of a list (zero, smaller than an element, exact and off-by-one fits, defaults, targets beyond 16-bit counts), three kinds of pointer (plain, class type, self-relative), two size types, and elements that are over-aligned, padded, owning, move-only, pointers, enumerations or flags
// C27: behaviour does not depend on sizes, targets or pointer types.
#include <memory>
#include "../suite.hpp"
#include "../iters.hpp"
#include "../fancy.hpp"
#include "../selfrel.hpp"
#include "../livepointer.hpp"
using namespace mc;
// kinds of element: over-aligned, padded, owning, move-only, pointers, enumerations, bool
template <size_t A> struct alignas(A) Wide {
  uint32_t v, pad[3];
  Wide() : Wide(0) {}
  explicit Wide(uint32_t x) : v(x), pad{x, x, x} {}
  friend bool operator==(const Wide& a, const Wide& b) { return a.v == b.v; }
  friend bool operator<(const Wide& a, const Wide& b) { return a.v < b.v; }
};
struct Padded {                                    // first members smaller than the last
  uint8_t a; uint64_t b; uint8_t c;
  Padded() : Padded(0) {}
  explicit Padded(uint32_t x) : a(uint8_t(x)), b(x), c(uint8_t(x >> 8)) {}
  friend bool operator==(const Padded& x, const Padded& y) { return x.b == y.b; }
  friend bool operator<(const Padded& x, const Padded& y) { return x.b < y.b; }
};
struct Owned {                                     // move-only, owns memory; moved from it is null
  std::unique_ptr<uint32_t> p;
  Owned() {}
  explicit Owned(uint32_t x) : p(new uint32_t(x)) {}
  uint32_t get() const { return p ? *p : 0; }
  friend bool operator==(const Owned& x, const Owned& y) { return x.get() == y.get(); }
  friend bool operator<(const Owned& x, const Owned& y) { return x.get() < y.get(); }
};
struct Shared {                                    // counts its owners
  std::shared_ptr<uint32_t> p;
  Shared() {}
  explicit Shared(uint32_t x) : p(std::make_shared<uint32_t>(x)) {}
  uint32_t get() const { return p ? *p : 0; }
  friend bool operator==(const Shared& x, const Shared& y) { return x.get() == y.get(); }
  friend bool operator<(const Shared& x, const Shared& y) { return x.get() < y.get(); }
};
enum class Colour : uint16_t {};
enum class Flag : bool {};
namespace mc {
#define EL_HEAD(cp) static constexpr bool copyable = cp, movable = true, dflt = true, cmp = true, tracked = false
template <size_t A> struct El<Wide<A>> { EL_HEAD(true);
  static uint32_t get(const Wide<A>& t) { if (t.pad[0] != t.v || t.pad[2] != t.v) return 0xfffffff0u; return t.v; }
  static void put(Wide<A>& t, uint32_t v) { t = Wide<A>(v); } };
template <> struct El<Padded> { EL_HEAD(true); static uint32_t get(const Padded& t) { return t.a == uint8_t(t.b) && t.c == uint8_t(t.b >> 8) ? uint32_t(t.b) : 0xfffffff0u; } static void put(Padded& t, uint32_t v) { t = Padded(v); } };
template <> struct El<Owned> { EL_HEAD(false); static uint32_t get(const Owned& t) { return t.get(); } static void put(Owned& t, uint32_t v) { t = Owned(v); } };
template <> struct El<Shared> { EL_HEAD(true); static uint32_t get(const Shared& t) { return t.get(); } static void put(Shared& t, uint32_t v) { t = Shared(v); } };
template <> struct El<Flag> { EL_HEAD(true); static uint32_t get(const Flag& t) { return uint32_t(t); } static void put(Flag& t, uint32_t v) { t = Flag(v % 2 != 0); } };
template <> inline Flag mk<Flag>(uint32_t v) { return Flag(v % 2 != 0); }
template <> struct El<Colour> { EL_HEAD(true); static uint32_t get(const Colour& t) { return uint32_t(t); } static void put(Colour& t, uint32_t v) { t = Colour(v); } };
template <> struct El<const char*> { EL_HEAD(true); static uint32_t get(const char* const& t) { return uint32_t(uintptr_t(t)); } static void put(const char*& t, uint32_t v) { t = reinterpret_cast<const char*>(uintptr_t(v)); } };
template <> inline const char* mk<const char*>(uint32_t v) { return reinterpret_cast<const char*>(uintptr_t(v)); }
template <> struct El<long double> { EL_HEAD(true); static uint32_t get(const long double& t) { return uint32_t(t); } static void put(long double& t, uint32_t v) { t = v; } };
template <> struct El<std::pair<uint8_t, uint32_t>> { using P = std::pair<uint8_t, uint32_t>; EL_HEAD(true); static uint32_t get(const P& t) { return uint8_t(t.second >> 8) == t.first ? t.second : 0xfffffff0u; } static void put(P& t, uint32_t v) { t = P(uint8_t(v >> 8), v); } };
template <> inline std::pair<uint8_t, uint32_t> mk<std::pair<uint8_t, uint32_t>>(uint32_t v) { return {uint8_t(v >> 8), v}; }
}
constexpr size_t fit(size_t room, size_t unit, size_t least) { return room / unit > least ? room / unit : least; }
struct Plain { template <class T> using A = Alloc<T, T, Pol<0>>; static const char* name() { return ""; } static constexpr size_t node = 16, entry = 16; };
struct Class { template <class T> using A = FAlloc<T, T>; static const char* name() { return " class pointer"; } static constexpr size_t node = 16, entry = 16; };
struct Class32 { template <class T> using A = FAlloc<T, T, uint32_t>; static const char* name() { return " class pointer, 32-bit sizes"; } static constexpr size_t node = 16, entry = 16; };
struct SelfRel { template <class T> using A = SAlloc<T, T>; static const char* name() { return " self-relative pointer"; } static constexpr size_t node = 16, entry = 16; };
struct Live { template <class T> using A = LAlloc<T, T>; static const char* name() { return " pointer with a lifetime"; } static constexpr size_t node = 24, entry = 24; };
struct Std { template <class T> using A = std::allocator<T>; static const char* name() { return " std::allocator"; } static constexpr size_t node = 16, entry = 16; };
template <class T_, size_t ST, size_t BT, class K> struct Any {
  using Kind = K;
  using T = T_; using A = typename K::template A<T>;
  using Seq = boost::segmented_tree::seq<T, A, ST, BT>;
  static constexpr size_t segtarget = ST, basetarget = BT, segmax = fit(ST, sizeof(T), 1), basemax = std::min<size_t>(65535, fit(BT > K::node ? BT - K::node : 0, K::entry, 3));
  static constexpr size_t segmin = (segmax + 1) / 2, basemin = (basemax + 1) / 2;
  static constexpr int pol = 0; static constexpr bool rebuild = std::is_same<K, Std>::value;
};
template <class C> struct V {
  using S = typename C::Seq;
  static void visit(State<C>& s) {
    bool stop = false;
    all_ops<C>(s, [&](const Op<S>& o) { if ((o.flags & O_ALGO) && sizeof(typename C::T) == 1) return; if (!stop && !run_plain<C>(s, o)) stop = true; });
    if (stop) return;
    set_op("reading"); auto& c = s.fresh(); R.transitions++;
    if (s.n <= 4000) full_contents(c, s.model); else same_contents(c, s.model);
    for (auto it = c.begin(), e = c.end(); it != e && !g_err.set; ++it) if (uintptr_t(std::addressof(*it)) % alignof(typename C::T)) err("contents", "an element is not aligned to %zu bytes", alignof(typename C::T));
    for (auto q : few_positions(s.n + 1, C::segmax, 9, 20)) if (!g_err.set) iter_exact(c, c.nth(q), q, s.model, false);
    settle();
    if (std::is_same<typename C::Kind, Live>::value) lives(s);
  }
  // every pointer object in an index node is destroyed before the node is returned
  static void lives(State<C>& s) {
    auto gone = [&](S& c) { c.~S(); if (W().live_ptrs) err("pointer-life", "%lld pointer objects were never destroyed", (long long)W().live_ptrs); settle(); };
    all_ops<C>(s, [&](const Op<S>& o) {
      if (o.flags & O_CTOR) return;
      op_name(o); auto& c = s.fresh(); R.transitions++;
      o.run(c); if (settle()) return;
      strcpy(R.extra, "then destruction");
      gone(c);
    });
  }
};
template <class C> void sweep(const std::string& nm, size_t budget) {
  char b[160]; snprintf(b, sizeof b, "%s size %zu targets %zu/%zu (%zu,%zu)", nm.c_str(), sizeof(typename C::T), C::segtarget, C::basetarget, C::segmax, C::basemax);
  Explorer<C> e;
  size_t more = R.thorough() ? 2 : 0;
  if (C::segmax <= 6 && C::basemax <= 6) {
    size_t n = C::segmax == 1 ? 13 : C::segmax == 2 ? 9 : C::segmax == 3 ? 12 : 4 * C::segmax - 3;
    if (C::basemax > 3) n += 3;
    e.explore(b, n + more, V<C>::visit);
  } else {
    std::vector<std::vector<BOp>> f;
    size_t leaf = C::segmax * C::basemax;
    for (size_t n : {C::segmax - 1, C::segmax, C::segmax + 1, 2 * C::segmax + 1, leaf, leaf + 1, 2 * leaf + 1, leaf * C::basemax + 1})
      if (n && n <= budget) for (auto& x : fills({uint32_t(n)})) f.push_back(x);
    if (f.empty()) f = fills({uint32_t(budget)});
    e.explore_from(b, f, SIZE_MAX, R.thorough() && budget <= 900 ? 1 : 0, V<C>::visit);
  }
}
template <class C> void wide(uint32_t n) {
  char b[160]; snprintf(b, sizeof b, "wide root size %zu targets %zu/%zu (%zu,%zu)", sizeof(typename C::T), C::segtarget, C::basetarget, C::segmax, C::basemax);
  Explorer<C> e; e.explore_from(b, {{{'B', n, 0}}, {{'F', n, 0}}}, SIZE_MAX, 0, V<C>::visit);
}
template <class T, class K, size_t... TG> struct Targets;
template <class T, class K> struct Targets<T, K> { static void go(size_t) {} };
template <class T, class K, size_t ST, size_t BT, size_t... R_> struct Targets<T, K, ST, BT, R_...> {
  static void go(size_t budget) { sweep<Any<T, ST, BT, K>>(K::name(), budget); Targets<T, K, R_...>::go(budget); }
};
template <int N, class K> void sized(size_t budget) {
  constexpr size_t s = sizeof(Tv<N>);
  Targets<Tv<N>, K, 0, 0, s - 1, 79, s, 80, 2 * s - 1, 95, 2 * s, 96, 3 * s + 1, 112, 1024, 768>::go(budget);
}
void go() {
#if PART == 1
  sized<1, Plain>(400); sized<3, Plain>(400);
#elif PART == 2
  sized<5, Plain>(400); sized<7, Plain>(300);
#elif PART == 3
  sized<33, Plain>(300); sized<100, Plain>(300);
#elif PART == 4
  sized<1024, Plain>(60); sized<1025, Plain>(60); sized<3000, Plain>(40);
#elif PART == 5
  Targets<uint16_t, Plain, 0, 0, 1, 1, 2, 15, 3, 16, 4, 17, 5, 31, 6, 63, 7, 64, 8, 79, 9, 80, 10, 81, 512, 0, 0, 512>::go(300);
  Targets<double, Plain, 0, 512, 512, 0, 8, 768, 1024, 80>::go(300);
#elif PART == 6
  Targets<TF, Class, 0, 0, 2 * sizeof(TF), 80, 3 * sizeof(TF), 96, 1024, 768>::go(300);
  Targets<Tv<3>, Class, 6, 80, 0, 512>::go(300);
  Targets<TM, Class, 2 * sizeof(TM), 80>::go(300);
#elif PART == 7
  Targets<TF, SelfRel, 0, 0, 2 * sizeof(TF), 80, 3 * sizeof(TF), 96, 1024, 768>::go(300);
  Targets<uint32_t, SelfRel, 8, 80, 0, 512>::go(300);
  Targets<TM, SelfRel, 3 * sizeof(TM), 80>::go(300);
#elif PART == 8
  Targets<TF, Class32, 0, 0, 2 * sizeof(TF), 80, 1024, 768>::go(300);
  Targets<uint64_t, Class32, 16, 80, 24, 96, 0, 300>::go(300);
#elif PART == 9
  // targets beyond what 16 bits can count
  Targets<uint32_t, Plain, 0, 1 << 21>::go(70000);
  Targets<uint8_t, Plain, 1 << 17, 0>::go(140000);
  Targets<uint16_t, Plain, 1 << 21, 1 << 21>::go(70000);
#elif PART == 10
  Targets<uint64_t, Std, 0, 0, 1024, 768, 512, 512, 0, 1 << 21>::go(R.thorough() ? 70000 : 3000);
  Targets<std::string, Std, 0, 0, 2 * sizeof(std::string), 80, 3 * sizeof(std::string) + 1, 95, 1024, 768>::go(300);
#elif PART == 11
  Targets<uint32_t, Live, 0, 0, 8, 0, 4, 24 + 24 * 4, 12, 24 + 24 * 5, 512, 0>::go(200);
  Targets<TF, Live, 2 * sizeof(TF), 0, 3 * sizeof(TF), 0>::go(200);
#elif PART == 12
  // roots of more children than 8 bits can count
  wide<Any<uint32_t, 0, 16 + 16 * 300, Plain>>(40000);
  wide<Any<uint8_t, 0, 16 + 16 * 140, Plain>>(9900);
  if (R.thorough()) wide<Any<uint8_t, 0, 16 + 16 * 520, Plain>>(140000);
#elif PART == 13
  Targets<Wide<16>, Std, 32, 80, 48, 96, 1024, 768>::go(300);
  Targets<Wide<32>, Std, 0, 0, 64, 80, 1024, 768>::go(300);
  Targets<Wide<64>, Std, 128, 80, 192, 96, 512, 0>::go(300);
  Targets<Padded, Std, 2 * sizeof(Padded), 80, 1024, 768>::go(300);
  Targets<Owned, Std, 8, 0, 16, 80, 24, 96, 1024, 768>::go(300);
  Targets<Shared, Std, 16, 0, 32, 80, 48, 96, 1024, 768>::go(300);
#elif PART == 14
  Targets<Flag, Plain, 2, 80, 3, 96, 64, 768>::go(300);
  Targets<Colour, Plain, 4, 80, 6, 96, 128, 768>::go(300);
  Targets<const char*, Std, 16, 80, 1024, 768>::go(300);
  Targets<long double, Std, 32, 80, 1024, 768>::go(300);
  Targets<std::pair<uint8_t, uint32_t>, Plain, 16, 80, 24, 96, 1024, 768>::go(300);
#endif
}
MC_MAIN(go())
