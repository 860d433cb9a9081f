// A pointer of class type whose objects must be constructed before they are assigned or read and
// destroyed when their storage is given up, as the pointers of a checking or counting allocator do.
#pragma once
#include "explore.hpp"
#include <iterator>
namespace mc {
template <class U> struct LP;
template <class U> struct lp_ref { using type = U&; };
template <> struct lp_ref<void> { using type = void; };
template <> struct lp_ref<const void> { using type = void; };
template <class U> struct LP {
  using element_type = U; using value_type = typename std::remove_cv<U>::type; using difference_type = ptrdiff_t;
  using pointer = LP; using reference = typename lp_ref<U>::type; using iterator_category = std::random_access_iterator_tag;
  template <class V> using rebind = LP<V>;
  U* p; const void* self;
  void born(U* q) noexcept { p = q; self = this; if (in_storage(this)) W().live_ptrs++; }
  U* get() const noexcept { if (self != this) err("pointer-life", "a pointer in an index node was read, assigned or destroyed before it was constructed or after it was destroyed"); return p; }
  LP() noexcept { born(nullptr); }
  LP(std::nullptr_t) noexcept { born(nullptr); }
  explicit LP(U* q) noexcept { born(q); }
  LP(const LP& o) noexcept { born(o.get()); }
  LP& operator=(const LP& o) noexcept { get(); p = o.get(); return *this; }
  LP& operator=(std::nullptr_t) noexcept { get(); p = nullptr; return *this; }
  ~LP() { get(); self = nullptr; if (in_storage(this)) W().live_ptrs--; }
  template <class V, typename std::enable_if<std::is_convertible<V*, U*>::value && !std::is_same<U, V>::value, int>::type = 0> LP(const LP<V>& o) noexcept { born(o.get()); }
  template <class V, typename std::enable_if<!std::is_convertible<V*, U*>::value && std::is_void<V>::value, int>::type = 0> explicit LP(const LP<V>& o) noexcept { born(static_cast<U*>(o.get())); }
  U* operator->() const { return get(); }
  reference operator*() const { return *get(); }
  template <class V = U, typename std::enable_if<!std::is_void<V>::value, int>::type = 0> V& operator[](ptrdiff_t i) const { return get()[i]; }
  explicit operator bool() const noexcept { return get() != nullptr; }
  LP& operator+=(ptrdiff_t d) { p = get() + d; return *this; } LP& operator-=(ptrdiff_t d) { p = get() - d; return *this; }
  LP& operator++() { return *this += 1; } LP operator++(int) { LP c = *this; *this += 1; return c; }
  LP& operator--() { return *this -= 1; } LP operator--(int) { LP c = *this; *this -= 1; return c; }
  friend LP operator+(LP a, ptrdiff_t d) { a += d; return a; } friend LP operator+(ptrdiff_t d, LP a) { a += d; return a; }
  friend LP operator-(LP a, ptrdiff_t d) { a -= d; return a; }
  friend bool operator==(const LP& a, std::nullptr_t) { return !a.get(); } friend bool operator!=(const LP& a, std::nullptr_t) { return !!a.get(); }
  friend bool operator==(std::nullptr_t, const LP& a) { return !a.get(); } friend bool operator!=(std::nullptr_t, const LP& a) { return !!a.get(); }
  template <class V = U, typename std::enable_if<!std::is_void<V>::value, int>::type = 0> static LP pointer_to(V& r) { return LP(std::addressof(r)); }
};
template <class U, class V> ptrdiff_t operator-(const LP<U>& a, const LP<V>& b) { return a.get() - b.get(); }
#define MC_LP(OP) template <class U, class V> bool operator OP(const LP<U>& a, const LP<V>& b) { return a.get() OP b.get(); }
MC_LP(==) MC_LP(!=) MC_LP(<) MC_LP(>) MC_LP(<=) MC_LP(>=)

template <class U, class E> struct LAlloc {
  using value_type = U; using pointer = LP<U>; using const_pointer = LP<const U>; using void_pointer = LP<void>; using const_void_pointer = LP<const void>;
  using size_type = size_t; using difference_type = ptrdiff_t;
  template <class V> struct rebind { using other = LAlloc<V, E>; };
  LAlloc() noexcept {}
  template <class V> LAlloc(const LAlloc<V, E>&) noexcept {}
  static constexpr int kind = std::is_same<U, E>::value ? kSeg : kNode;
  pointer allocate(size_type n) { return pointer(static_cast<U*>(arena_alloc(n, sizeof(U), kind, 0))); }
  void deallocate(pointer p, size_type n) noexcept { arena_free(p.get(), n, sizeof(U), kind, 0); }
  friend bool operator==(const LAlloc&, const LAlloc&) { return true; }
  friend bool operator!=(const LAlloc&, const LAlloc&) { return false; }
};
}  // namespace mc
