// A class-type pointer that counts the accesses made to index nodes, and an allocator that uses it.
#pragma once
#include "explore.hpp"
#include <iterator>
namespace mc {
inline uint64_t g_derefs;                          // accesses to index nodes (not part of a state)
template <class U, class E> struct CP;
template <class U> struct add_ref_or_void { using type = U&; };
template <> struct add_ref_or_void<void> { using type = void; };
template <> struct add_ref_or_void<const void> { using type = void; };
template <class U, class E> struct CP {
  using element_type = U; using value_type = typename std::remove_cv<U>::type; using difference_type = ptrdiff_t;
  using pointer = CP; using reference = typename add_ref_or_void<U>::type; using iterator_category = std::random_access_iterator_tag;
  template <class V> using rebind = CP<V, E>;
  // Stored as an offset, so that a bytewise look at it is not an address.
  U* p;
  CP() noexcept : p(nullptr) {}
  CP(std::nullptr_t) noexcept : p(nullptr) {}
  explicit CP(U* q) noexcept : p(q) {}
  template <class V, typename std::enable_if<std::is_convertible<V*, U*>::value, int>::type = 0> CP(const CP<V, E>& o) noexcept : p(o.p) {}
  // from a pointer to void only explicitly, as static_cast does
  template <class V, typename std::enable_if<!std::is_convertible<V*, U*>::value && std::is_void<V>::value, int>::type = 0> explicit CP(const CP<V, E>& o) noexcept : p(static_cast<U*>(o.p)) {}
  CP& operator=(std::nullptr_t) noexcept { p = nullptr; return *this; }
  static constexpr bool counted = !std::is_void<U>::value && !std::is_same<value_type, E>::value;
  void touch() const { if (counted) ++g_derefs; }
  U* operator->() const { touch(); return p; }
  reference operator*() const { touch(); return *p; }
  template <class V = U, typename std::enable_if<!std::is_void<V>::value, int>::type = 0> V& operator[](ptrdiff_t i) const { touch(); return p[i]; }
  explicit operator bool() const noexcept { return p != nullptr; }
  CP& operator++() { ++p; return *this; } CP operator++(int) { CP c = *this; ++p; return c; }
  CP& operator--() { --p; return *this; } CP operator--(int) { CP c = *this; --p; return c; }
  CP& operator+=(ptrdiff_t d) { p += d; return *this; } CP& operator-=(ptrdiff_t d) { p -= d; return *this; }
  friend CP operator+(CP a, ptrdiff_t d) { a.p += d; return a; } friend CP operator+(ptrdiff_t d, CP a) { a.p += d; return a; }
  friend CP operator-(CP a, ptrdiff_t d) { a.p -= d; return a; }
  friend bool operator==(CP a, std::nullptr_t) { return !a.p; } friend bool operator!=(CP a, std::nullptr_t) { return !!a.p; }
  friend bool operator==(std::nullptr_t, CP a) { return !a.p; } friend bool operator!=(std::nullptr_t, CP a) { return !!a.p; }
  template <class V = U, typename std::enable_if<!std::is_void<V>::value, int>::type = 0> static CP pointer_to(V& r) { return CP(std::addressof(r)); }
};
template <class U, class V, class E> ptrdiff_t operator-(CP<U, E> a, CP<V, E> b) { return a.p - b.p; }
#define MC_CP(OP) template <class U, class V, class E> bool operator OP(CP<U, E> a, CP<V, E> b) { return a.p OP b.p; }
MC_CP(==) MC_CP(!=) MC_CP(<) MC_CP(>) MC_CP(<=) MC_CP(>=)

template <class U, class E, class SizeT = size_t> struct FAlloc {
  using value_type = U; using pointer = CP<U, E>; using const_pointer = CP<const U, E>;
  using void_pointer = CP<void, E>; using const_void_pointer = CP<const void, E>;
  using size_type = SizeT; using difference_type = ptrdiff_t;
  template <class V> struct rebind { using other = FAlloc<V, E, SizeT>; };
  FAlloc() noexcept {}
  template <class V> FAlloc(const FAlloc<V, E, SizeT>&) noexcept {}
  static constexpr int kind = std::is_same<U, E>::value ? kSeg : kNode;
  pointer allocate(size_type n) { return pointer(static_cast<U*>(arena_alloc(n, sizeof(U), kind, 0))); }
  void deallocate(pointer p, size_type n) noexcept { arena_free(p.p, n, sizeof(U), kind, 0); }
  friend bool operator==(const FAlloc&, const FAlloc&) { return true; }
  friend bool operator!=(const FAlloc&, const FAlloc&) { return false; }
};
template <class T_, size_t SegMax, size_t BaseMax, class SizeT = size_t, size_t SegTarget = SegMax * sizeof(T_), size_t BaseTarget = (BaseMax <= 3 ? 0 : 16 + 16 * BaseMax)>
struct FCfg {
  using T = T_;
  using A = FAlloc<T, T, SizeT>;
  using Seq = boost::segmented_tree::seq<T, A, SegTarget, BaseTarget>;
  static constexpr size_t segmax = SegMax, basemax = BaseMax, segtarget = SegTarget, basetarget = BaseTarget;
  static constexpr size_t segmin = (SegMax + 1) / 2, basemin = (BaseMax + 1) / 2;
  static constexpr int pol = 0;
  static constexpr bool rebuild = false;
};
}  // namespace mc
