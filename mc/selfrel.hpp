// A pointer that stores the distance from itself to its target, as pointers into shared memory do,
// so that it survives copying by its own operations only; and an allocator that uses it.
#pragma once
#include "explore.hpp"
#include <iterator>
namespace mc {
template <class U> struct SP;
template <class U> struct sp_ref { using type = U&; };
template <> struct sp_ref<void> { using type = void; };
template <> struct sp_ref<const void> { using type = void; };
template <class U> struct SP {
  using element_type = U; using value_type = typename std::remove_cv<U>::type; using difference_type = ptrdiff_t;
  using pointer = SP; using reference = typename sp_ref<U>::type; using iterator_category = std::random_access_iterator_tag;
  template <class V> using rebind = SP<V>;
  ptrdiff_t off;                                   // 1: null
  U* get() const noexcept { return off == 1 ? nullptr : reinterpret_cast<U*>(reinterpret_cast<uintptr_t>(this) + uintptr_t(off)); }
  void set(U* p) noexcept { off = p ? ptrdiff_t(reinterpret_cast<uintptr_t>(p) - reinterpret_cast<uintptr_t>(this)) : 1; }
  SP() noexcept : off(1) {}
  SP(std::nullptr_t) noexcept : off(1) {}
  explicit SP(U* p) noexcept { set(p); }
  SP(const SP& o) noexcept { set(o.get()); }
  SP& operator=(const SP& o) noexcept { set(o.get()); return *this; }
  SP& operator=(std::nullptr_t) noexcept { off = 1; return *this; }
  template <class V, typename std::enable_if<std::is_convertible<V*, U*>::value && !std::is_same<U, V>::value, int>::type = 0> SP(const SP<V>& o) noexcept { set(o.get()); }
  template <class V, typename std::enable_if<!std::is_convertible<V*, U*>::value && std::is_void<V>::value, int>::type = 0> explicit SP(const SP<V>& o) noexcept { set(static_cast<U*>(o.get())); }
  U* operator->() const { return get(); }
  reference operator*() const { return *get(); }
  template <class V = U, typename std::enable_if<!std::is_void<V>::value, int>::type = 0> V& operator[](ptrdiff_t i) const { return get()[i]; }
  explicit operator bool() const noexcept { return off != 1; }
  SP& operator+=(ptrdiff_t d) { set(get() + d); return *this; } SP& operator-=(ptrdiff_t d) { set(get() - d); return *this; }
  SP& operator++() { return *this += 1; } SP operator++(int) { SP c = *this; *this += 1; return c; }
  SP& operator--() { return *this -= 1; } SP operator--(int) { SP c = *this; *this -= 1; return c; }
  friend SP operator+(SP a, ptrdiff_t d) { a += d; return a; } friend SP operator+(ptrdiff_t d, SP a) { a += d; return a; }
  friend SP operator-(SP a, ptrdiff_t d) { a -= d; return a; }
  friend bool operator==(const SP& a, std::nullptr_t) { return a.off == 1; } friend bool operator!=(const SP& a, std::nullptr_t) { return a.off != 1; }
  friend bool operator==(std::nullptr_t, const SP& a) { return a.off == 1; } friend bool operator!=(std::nullptr_t, const SP& a) { return a.off != 1; }
  template <class V = U, typename std::enable_if<!std::is_void<V>::value, int>::type = 0> static SP pointer_to(V& r) { return SP(std::addressof(r)); }
};
template <class U, class V> ptrdiff_t operator-(const SP<U>& a, const SP<V>& b) { return a.get() - b.get(); }
#define MC_SP(OP) template <class U, class V> bool operator OP(const SP<U>& a, const SP<V>& b) { return a.get() OP b.get(); }
MC_SP(==) MC_SP(!=) MC_SP(<) MC_SP(>) MC_SP(<=) MC_SP(>=)

template <class U, class E> struct SAlloc {
  using value_type = U; using pointer = SP<U>; using const_pointer = SP<const U>; using void_pointer = SP<void>; using const_void_pointer = SP<const void>;
  using size_type = size_t; using difference_type = ptrdiff_t;
  template <class V> struct rebind { using other = SAlloc<V, E>; };
  SAlloc() noexcept {}
  template <class V> SAlloc(const SAlloc<V, E>&) noexcept {}
  static constexpr int kind = std::is_same<U, E>::value ? kSeg : kNode;
  pointer allocate(size_type n) { return pointer(static_cast<U*>(arena_alloc(n, sizeof(U), kind, 0))); }
  void deallocate(pointer p, size_type n) noexcept { arena_free(p.get(), n, sizeof(U), kind, 0); }
  friend bool operator==(const SAlloc&, const SAlloc&) { return true; }
  friend bool operator!=(const SAlloc&, const SAlloc&) { return false; }
};
}  // namespace mc
