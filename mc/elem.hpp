// Element types and allocators with built-in monitors.
#pragma once
#include "core.hpp"

namespace mc {

// ---------------------------------------------------------------- elements with identity
// K bits: 64 compares by the high half of the value only; 256 only moves of the value 5000 (the new element) may fail;
// 1 copyable, 2 movable, 4 default constructible, 8 comparable, 16 hostile & and comma
constexpr uint32_t kAlive = 0xA11FE000u, kGone = 0x6011E000u, kMovedVal = 0xFFFFFFFFu;
constexpr int CPY = 1, MOV = 2, DFL = 4, CMP = 8, HOSTILE = 16;
// Whether elements in the sequences' storage must come and go through the allocator (C13).
inline bool g_need_con, g_need_des;
inline int g_in_con, g_in_des;
inline bool g_log_on;
inline std::vector<const void*> g_con_log, g_des_log;
inline bool in_storage(const void* p) { uintptr_t a = reinterpret_cast<uintptr_t>(p); return a >= kBase + kFirstBlock && a < kBase + kArena; }
template <int K> struct TrkBase {
  uint32_t v; uint32_t magic; const void* self;
  bool alive() const { return magic == kAlive && self == static_cast<const void*>(this); }
  void born(uint32_t x) {
    // Only storage in the arena is known to be vacant; stack slots keep stale bytes.
    uintptr_t a = reinterpret_cast<uintptr_t>(this);
    if (a >= kBase && a < kBase + kArena && alive()) err("life-overwrite", "an element was constructed over a live one");
    if (g_need_con && !g_in_con && in_storage(this)) err("a-construct", "an element was constructed in the storage of a sequence without the allocator's construct");
    v = x; magic = kAlive; self = this; W().live_elems++;
  }
  void need(const char* what) const { if (!alive()) err("life-dead", "%s of something that is not a live element", what); }
  void init_value(uint32_t x) { fault_point(F_VALUE); W().valctor++; born(x); }
  void init_default() { fault_point(F_VALUE); W().dflt++; born(0); }
  void init_copy(const TrkBase& o) { fault_point(F_COPY); o.need("copy"); W().copies++; born(o.v); }
  void init_move(TrkBase& o) { if (!(K & 256) || o.v == 5000) fault_point(F_MOVE); o.need("move"); W().moves++; uint32_t x = o.v; o.v = kMovedVal; born(x); }
  void set_copy(const TrkBase& o) { need("assignment to"); o.need("copy"); fault_point(F_ASSIGN); W().cassigns++; v = o.v; }
  void set_move(TrkBase& o) { need("assignment to"); o.need("move"); fault_point(F_MASSIGN); W().massigns++; uint32_t x = o.v; if (&o != this) o.v = kMovedVal; v = x; }
  void die() {
    if (g_need_des && !g_in_des && in_storage(this)) err("a-destroy", "an element in the storage of a sequence was destroyed without the allocator's destroy");
    need("destruction"); magic = kGone; self = nullptr; W().live_elems--; W().dtors++; }
};
template <int K, bool C = (K & CPY) != 0, bool M = (K & MOV) != 0> struct Trk;
#define MC_TRK_COMMON \
  explicit Trk(uint32_t x) { b.init_value(x); } \
  ~Trk() { b.die(); } \
  TrkBase<K> b;
struct NoDefault {};
template <int K> struct Trk<K, true, true> {
  template <int Q = K, typename std::enable_if<(Q & DFL) != 0, int>::type = 0> Trk() { b.init_default(); }
  MC_TRK_COMMON
  Trk(const Trk& o) { b.init_copy(o.b); }
  Trk(Trk&& o) noexcept((K & 32) == 0) { b.init_move(o.b); }
  Trk& operator=(const Trk& o) { b.set_copy(o.b); return *this; }
  Trk& operator=(Trk&& o) noexcept((K & 32) == 0) { b.set_move(o.b); return *this; }
};
template <int K> struct Trk<K, false, true> {
  template <int Q = K, typename std::enable_if<(Q & DFL) != 0, int>::type = 0> Trk() { b.init_default(); }
  MC_TRK_COMMON
  Trk(const Trk&) = delete;
  Trk(Trk&& o) noexcept((K & 32) == 0) { b.init_move(o.b); }
  Trk& operator=(const Trk&) = delete;
  Trk& operator=(Trk&& o) noexcept((K & 32) == 0) { b.set_move(o.b); return *this; }
};
template <int K> struct Trk<K, true, false> {
  template <int Q = K, typename std::enable_if<(Q & DFL) != 0, int>::type = 0> Trk() { b.init_default(); }
  MC_TRK_COMMON
  Trk(const Trk& o) { b.init_copy(o.b); }
  Trk& operator=(const Trk& o) { b.set_copy(o.b); return *this; }
};
#define MC_CMP(OP) template <int K> typename std::enable_if<(K & CMP) != 0, bool>::type operator OP(const Trk<K>& x, const Trk<K>& y) { \
    x.b.need("comparison"); y.b.need("comparison"); fault_point(F_PRED); constexpr int sh = (K & 64) ? 16 : 0; return (x.b.v >> sh) OP (y.b.v >> sh); }
MC_CMP(==) MC_CMP(<)
// Hostile types: address-of and comma must not be used by the container.
template <int K> typename std::enable_if<(K & HOSTILE) != 0, Trk<K>*>::type operator&(const Trk<K>&) { err("hostile-address", "operator& of the element type was called"); return nullptr; }
template <int K, class U> typename std::enable_if<(K & HOSTILE) != 0, int>::type operator,(const Trk<K>&, const U&) { err("hostile-comma", "operator, of the element type was called"); return 0; }

// Trivially copyable elements of N bytes.
template <int N> struct Tv {
  unsigned char raw[N];
  Tv() : raw{} {}
  explicit Tv(uint32_t x) : raw{} { for (int i = 0; i < N && i < 4; ++i) raw[i] = (unsigned char)(x >> (8 * i)); if (N > 4) raw[N - 1] = (unsigned char)(x * 7 + 1); }
};
template <int N> uint32_t tvval(const Tv<N>& t) {
  uint32_t x = 0; for (int i = 0; i < N && i < 4; ++i) x |= uint32_t(t.raw[i]) << (8 * i);
  if (N > 4 && x != 0 && t.raw[N - 1] != (unsigned char)(x * 7 + 1)) return 0xBADBAD;   // torn element
  return x;
}
template <int N> bool operator==(const Tv<N>& x, const Tv<N>& y) { return tvval(x) == tvval(y); }
template <int N> bool operator<(const Tv<N>& x, const Tv<N>& y) { return tvval(x) < tvval(y); }

// An element that knows its own address and is trivially destructible: bytewise moves show.
struct Home {
  const void* self; uint32_t v;
  Home() : self(this), v(0) {}
  explicit Home(uint32_t x) : self(this), v(x) {}
  Home(const Home& o) : self(this), v(o.get()) {}
  Home& operator=(const Home& o) { get(); v = o.get(); return *this; }
  uint32_t get() const { if (self != this) err("life-dead", "an element is not where its constructor ran"); return v; }
  friend bool operator==(const Home& x, const Home& y) { return x.get() == y.get(); }
  friend bool operator<(const Home& x, const Home& y) { return x.get() < y.get(); }
};

// Trivially copyable, but equality is not equality of the bytes.
struct Loose {
  uint32_t key, note;
  Loose() : Loose(0) {}
  explicit Loose(uint32_t x) : key(x), note(next()) {}
  static uint32_t next() { static uint32_t n; return n += 0x1010101; }
  friend bool operator==(const Loose& x, const Loose& y) { return x.key == y.key; }
  friend bool operator<(const Loose& x, const Loose& y) { return x.key < y.key; }
};
static_assert(std::is_trivially_copyable<Loose>::value, "");

// Unequal elements may be equivalent: < looks at less than == does.
struct Strict {
  uint32_t v;
  Strict() : v(0) {}
  explicit Strict(uint32_t x) : v(x) {}
  friend bool operator==(const Strict& x, const Strict& y) { return x.v == y.v; }
  friend bool operator<(const Strict& x, const Strict& y) { return x.v / 2 < y.v / 2; }
};

// Uniform access.
template <class T> struct El;
template <> struct El<Strict> {
  static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false;
  static uint32_t get(const Strict& t) { return t.v; }
  static void put(Strict& t, uint32_t v) { t.v = v; }
};
template <> struct El<Loose> {
  static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false;
  static uint32_t get(const Loose& t) { return t.key; }
  static void put(Loose& t, uint32_t v) { t = Loose(v); }
};
template <> struct El<Home> {
  static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false;
  static uint32_t get(const Home& t) { return t.get(); }
  static void put(Home& t, uint32_t v) { t.v = v; }
};
template <int K> struct El<Trk<K>> {
  static constexpr bool copyable = (K & CPY) != 0, movable = (K & MOV) != 0, dflt = (K & DFL) != 0, cmp = (K & CMP) != 0, tracked = true;
  static uint32_t get(const Trk<K>& t) { if (!t.b.alive()) { err("life-dead", "a position of the sequence holds no live element"); return 0xDEAD; } return t.b.v; }
  static void put(Trk<K>& t, uint32_t v) { t.b.v = v; }
};
template <int N> struct El<Tv<N>> {
  static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false;
  static uint32_t get(const Tv<N>& t) { return tvval(t); }
  static void put(Tv<N>& t, uint32_t v) { t = Tv<N>(v); }
};
#define MC_INT_EL(X) template <> struct El<X> { static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false; \
  static uint32_t get(const X& t) { return uint32_t(t); } static void put(X& t, uint32_t v) { t = X(v); } };
MC_INT_EL(uint64_t) MC_INT_EL(uint32_t) MC_INT_EL(uint16_t) MC_INT_EL(uint8_t) MC_INT_EL(double)
template <> struct El<std::string> { static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false;
  static uint32_t get(const std::string& t) { return t.empty() ? 0 : uint32_t(strtoul(t.c_str(), nullptr, 10)); }
  static void put(std::string& t, uint32_t v) { t = std::to_string(v); } };
// Negative values and values whose bytes sort otherwise; zeros of both signs.
template <> struct El<int32_t> { static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false;
  static uint32_t get(const int32_t& t) { return uint32_t(t / 255 + 1); }
  static void put(int32_t& t, uint32_t v) { t = (int32_t(v) - 1) * 255; } };
template <> struct El<float> { static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false;
  static uint32_t get(const float& t) { return uint32_t(t); }
  static void put(float& t, uint32_t v) { static bool minus; t = v ? float(v) : (minus = !minus) ? -0.0f : 0.0f; } };
template <class T> T mk(uint32_t v) { return T(v); }
template <> inline int32_t mk<int32_t>(uint32_t v) { int32_t t; El<int32_t>::put(t, v); return t; }
template <> inline float mk<float>(uint32_t v) { float t; El<float>::put(t, v); return t; }
template <> inline std::string mk<std::string>(uint32_t v) { return std::to_string(v); }
template <class T> uint32_t val(const T& t) { return El<T>::get(t); }

// On return of an element block no live element may remain in it.
template <int K> void trk_free_hook(void* p, size_t n, int kind) {
  if (kind != kSeg) return;
  auto* t = static_cast<TrkBase<K>*>(p);
  for (size_t i = 0; i < n; ++i) if (t[i].alive()) { err("life-leak", "a block was returned with a live element in it"); return; }
}
template <class T> struct FreeHook { static void set() { g_block_free_hook = nullptr; } };
template <int K> struct FreeHook<Trk<K>> { static void set() { g_block_free_hook = trk_free_hook<K>; } };

// ---------------------------------------------------------------- allocators
// Policy bits: 1 stateful (compares by tag), 2 construct, 4 destroy, 8 POCCA, 16 POCMA, 32 POCS, 64 select gives tag+100,
//              128 construct/destroy check liveness of slot for trivial types
constexpr int A_STATE = 1, A_CON = 2, A_DES = 4, A_CCA = 8, A_CMA = 16, A_SWP = 32, A_SEL = 64;
template <int P> struct Pol { static constexpr int p = P; };
template <class U, class E, class PolT> struct Alloc {
  using value_type = U;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (PolT::p & A_CCA) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (PolT::p & A_CMA) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (PolT::p & A_SWP) != 0>;
  using is_always_equal = std::integral_constant<bool, (PolT::p & A_STATE) == 0>;
  uint32_t tag;
  Alloc(uint32_t t = 0) noexcept : tag(t) {}
  template <class V> Alloc(const Alloc<V, E, PolT>& o) noexcept : tag(o.tag) {}
  static constexpr int kind = std::is_same<U, E>::value ? kSeg : kNode;
  U* allocate(size_t n) { return static_cast<U*>(arena_alloc(n, sizeof(U), kind, (PolT::p & A_STATE) ? tag : 0)); }
  void deallocate(U* p, size_t n) noexcept { arena_free(p, n, sizeof(U), kind, (PolT::p & A_STATE) ? tag : 0); }
  template <class V, class... Args, int Q = PolT::p, typename std::enable_if<(Q & A_CON) != 0, int>::type = 0>
  void construct(V* p, Args&&... args) {
    struct In { In() { ++g_in_con; } ~In() { --g_in_con; } } in;
    ::new (static_cast<void*>(p)) V(std::forward<Args>(args)...);
    if (std::is_same<V, E>::value) { W().aconstruct++; if (g_log_on) g_con_log.push_back(p); }
  }
  template <class V, int Q = PolT::p, typename std::enable_if<(Q & A_DES) != 0, int>::type = 0>
  void destroy(V* p) {
    struct In { In() { ++g_in_des; } ~In() { --g_in_des; } } in;
    if (std::is_same<V, E>::value) { W().adestroy++; if (g_log_on) g_des_log.push_back(p); }
    p->~V();
  }
  Alloc select_on_container_copy_construction() const { return (PolT::p & A_SEL) ? Alloc(tag + 100) : *this; }
};
template <class U, class V, class E, class P> bool operator==(const Alloc<U, E, P>& a, const Alloc<V, E, P>& b) noexcept { return !(P::p & A_STATE) || a.tag == b.tag; }
template <class U, class V, class E, class P> bool operator!=(const Alloc<U, E, P>& a, const Alloc<V, E, P>& b) noexcept { return !(a == b); }

}  // namespace mc
