// The alphabet: every operation of the container with every small argument, each with the
// result an ideal sequence gives.  A check instantiates the catalog in every explored state.
#pragma once
#include "explore.hpp"
#include <functional>
#include <iterator>

namespace mc {

// flags of an operation
constexpr unsigned O_SINGLE = 1,    // inserts one element: strong guarantee on allocation or construction failure
                   O_NOTHROW = 2,   // never fails, never allocates
                   O_ERASE = 4, O_INSERT = 8,
                   O_CTOR = 16,     // builds a container in slot 2, the subject is left alone
                   O_PAIR = 32,     // involves slot 1
                   O_ALGO = 64,
                   O_ASSIGN = 128,
                   O_RESIZE = 256,
                   O_REPLACE = 512; // positions outside [keep_lo, keep_hi) may change on failure

template <class F> struct func_ref;
template <class R_, class... A> struct func_ref<R_(A...)> {
  void* o; R_ (*f)(void*, A...);
  template <class L> func_ref(L& l) : o(const_cast<void*>(static_cast<const void*>(&l))), f([](void* p, A... a) -> R_ { return (*static_cast<L*>(p))(a...); }) {}
  R_ operator()(A... a) const { return f(o, a...); }
};

template <class S> struct Op {
  const char* name; long a, b, c; int na;
  unsigned flags;
  const Vec* expect;                 // contents of the subject afterwards
  const Vec* expect2;                // contents of the second container afterwards, or null
  long ret;                          // index the returned iterator must have, -1 if none
  long inserted;                     // how many elements the operation inserts
  long pos;                          // where
  func_ref<long(S&)> run;            // gives the index of the returned iterator, -1 if none
};

// ---------------------------------------------------------------- sources
// k live elements in harness memory; building and ending them is outside the faults.
template <class T> struct Src {
  T* p; size_t k;
  Src(size_t k_, uint32_t first) : p(static_cast<T*>(malloc((k_ + 1) * sizeof(T)))), k(0) {
    memset(static_cast<void*>(p), 0, (k_ + 1) * sizeof(T));
    auto m = W().fault_mask; W().fault_mask = 0;
    for (; k < k_; ++k) new (p + k) T(mk<T>(uint32_t(first + k)));
    W().fault_mask = m;
  }
  ~Src() { while (k) p[--k].~T(); free(p); }
  Src(const Src&) = delete;
};
template <class T> struct Tmp {      // one element in harness memory
  alignas(T) unsigned char raw[sizeof(T)];
  explicit Tmp(uint32_t v) { auto m = W().fault_mask; W().fault_mask = 0; new (raw) T(mk<T>(v)); W().fault_mask = m; }
  ~Tmp() { get().~T(); }
  T& get() { return *reinterpret_cast<T*>(raw); }
};

// A single-pass source with a monitor: each position is read exactly once, in order, before
// the iterator leaves it; the end is neither read nor advanced past.
struct Feed {
  uint32_t first, size; uint32_t pos = 0; bool read = false; uint64_t gen = 0;
  uint32_t multi = 0, skipped = 0, reads = 0;
};
template <class T> struct FeedIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = T; using difference_type = ptrdiff_t; using pointer = T*; using reference = T;
  Feed* f; uint64_t gen;               // null f: the end
  explicit FeedIt(Feed* x = nullptr) : f(x), gen(x ? x->gen : 0) {}
  void current(const char* what) const { if (f && gen != f->gen) err("feed-stale", "%s through an iterator of the source that was already passed", what); }
  T operator*() const {
    fault_point(F_ITER);
    if (!f) { err("feed-end", "the end of the source was read"); return mk<T>(0); }
    current("read");
    if (f->pos >= f->size) { err("feed-end", "the end of the source was read"); return mk<T>(0); }
    if (f->read) { f->multi++; err("feed-twice", "element %u of the source was read twice", f->pos); }
    f->read = true; f->reads++;
    return mk<T>(f->first + f->pos);
  }
  FeedIt& operator++() {
    fault_point(F_ITER);
    if (!f) { err("feed-end", "the end of the source was advanced"); return *this; }
    current("step");
    if (f->pos >= f->size) { err("feed-end", "the source was advanced past its end"); return *this; }
    if (!f->read) { f->skipped++; err("feed-skip", "element %u of the source was skipped", f->pos); }
    f->pos++; f->read = false; gen = ++f->gen;
    return *this;
  }
  FeedIt operator++(int) { FeedIt c = *this; ++*this; return c; }
  bool at_end() const { current("comparison"); return !f || f->pos >= f->size; }
  friend bool operator==(const FeedIt& a, const FeedIt& b) { return a.at_end() == b.at_end(); }
  friend bool operator!=(const FeedIt& a, const FeedIt& b) { return !(a == b); }
};

// ---------------------------------------------------------------- model helpers
inline Vec m_ins(const Vec& m, size_t p, size_t k, uint32_t first, uint32_t step) {
  Vec r(m.begin(), m.begin() + p);
  for (size_t i = 0; i < k; ++i) r.push_back(uint32_t(first + step * i));
  r.insert(r.end(), m.begin() + p, m.end());
  return r;
}
inline Vec m_del(const Vec& m, size_t i, size_t j) { Vec r(m.begin(), m.begin() + i); r.insert(r.end(), m.begin() + j, m.end()); return r; }
inline Vec m_seq(size_t k, uint32_t first, uint32_t step) { Vec r; for (size_t i = 0; i < k; ++i) r.push_back(uint32_t(first + step * i)); return r; }

inline std::vector<size_t> upto(size_t k) { std::vector<size_t> r; for (size_t i = 0; i <= k; ++i) r.push_back(i); return r; }

// ---------------------------------------------------------------- one-container operations
template <class C, class Fn> void ops_single(State<C>& s, Fn fn) {
  using S = typename C::Seq; using T = typename C::T; using E = El<T>;
  auto go = [&](const char* nm, long a, int na, unsigned fl, const Vec& ex, long ret, long ins, long pos, auto run) {
    Op<S> o{nm, a, 0, 0, na, fl, &ex, nullptr, ret, ins, pos, run};
    fn(o);
  };
  for (size_t p : positions(s.n + 1, C::segmax)) {
    Vec ex = m_ins(s.model, p, 1, kNew, 0);
    unsigned fl = O_SINGLE | O_INSERT;
    if constexpr (E::copyable) go("insert(const T&)", p, 1, fl, ex, p, 1, p, [p](S& c) -> long { Tmp<T> v(kNew); return c.index_of(c.insert(c.nth(p), const_cast<const T&>(v.get()))); });
    go("insert(T&&)", p, 1, fl, ex, p, 1, p, [p](S& c) -> long { Tmp<T> v(kNew); return c.index_of(c.insert(c.nth(p), std::move(v.get()))); });
    go("emplace", p, 1, fl, ex, p, 1, p, [p](S& c) -> long {
      if constexpr (std::is_constructible<T, uint32_t>::value) return c.index_of(c.emplace(c.nth(p), kNew)); else { Tmp<T> v(kNew); return c.index_of(c.emplace(c.nth(p), std::move(v.get()))); } });
    if constexpr (E::dflt) {
      Vec ex0 = m_ins(s.model, p, 1, 0, 0);
      go("emplace()", p, 1, fl, ex0, p, 1, p, [p](S& c) -> long { return c.index_of(c.emplace(c.nth(p))); });
    }
    if (p == s.n) {
      if constexpr (E::copyable) go("push_back(const T&)", 0, 0, fl, ex, -1, 1, p, [](S& c) -> long { Tmp<T> v(kNew); c.push_back(const_cast<const T&>(v.get())); return -1; });
      go("push_back(T&&)", 0, 0, fl, ex, -1, 1, p, [](S& c) -> long { Tmp<T> v(kNew); c.push_back(std::move(v.get())); return -1; });
      go("emplace_back", 0, 0, fl, ex, -1, 1, p, [](S& c) -> long { Tmp<T> v(kNew); c.emplace_back(std::move(v.get())); return -1; });
    }
    if (p == 0) {
      if constexpr (E::copyable) go("push_front(const T&)", 0, 0, fl, ex, -1, 1, p, [](S& c) -> long { Tmp<T> v(kNew); c.push_front(const_cast<const T&>(v.get())); return -1; });
      go("push_front(T&&)", 0, 0, fl, ex, -1, 1, p, [](S& c) -> long { Tmp<T> v(kNew); c.push_front(std::move(v.get())); return -1; });
      go("emplace_front", 0, 0, fl, ex, -1, 1, p, [](S& c) -> long { Tmp<T> v(kNew); c.emplace_front(std::move(v.get())); return -1; });
    }
  }
}
template <class C, class Fn> void ops_erase1(State<C>& s, Fn fn) {
  using S = typename C::Seq;
  auto go = [&](const char* nm, long a, int na, unsigned fl, const Vec& ex, long ret, auto run) {
    Op<S> o{nm, a, 0, 0, na, fl, &ex, nullptr, ret, 0, a, run};
    fn(o);
  };
  for (size_t p : positions(s.n, C::segmax)) {
    Vec ex = m_del(s.model, p, p + 1);
    unsigned fl = O_NOTHROW | O_ERASE;
    go("erase", p, 1, fl, ex, p, [p](S& c) -> long { return c.index_of(c.erase(c.nth(p))); });
    if (p == 0) go("pop_front", 0, 0, fl, ex, -1, [](S& c) -> long { c.pop_front(); return -1; });
    if (p + 1 == s.n) go("pop_back", 0, 0, fl, ex, -1, [](S& c) -> long { c.pop_back(); return -1; });
  }
}
template <class C, class Fn> void ops_erase_range(State<C>& s, Fn fn) {
  using S = typename C::Seq;
  auto go = [&](const char* nm, long a, long b, int na, const Vec& ex, long ret, auto run) {
    Op<S> o{nm, a, b, 0, na, O_NOTHROW | O_ERASE, &ex, nullptr, ret, 0, a, run};
    fn(o);
  };
  auto ps = few_positions(s.n + 1, C::segmax, s.n > 5000 ? 7 : 16, 40);
  for (size_t i : ps) for (size_t j : ps) {
    if (j < i) continue;
    Vec ex = m_del(s.model, i, j);
    go("erase(first,last)", i, j, 2, ex, i, [i, j](S& c) -> long { return c.index_of(c.erase(c.nth(i), c.nth(j))); });
  }
  Vec none;
  go("clear", 0, 0, 0, none, -1, [](S& c) -> long { c.clear(); return -1; });
}
template <class C, class Fn> void ops_insert_bulk(State<C>& s, const std::vector<size_t>& ks, Fn fn) {
  using S = typename C::Seq; using T = typename C::T; using E = El<T>;
  auto go = [&](const char* nm, long a, long b, int na, const Vec& ex, long ret, long ins, auto run) {
    Op<S> o{nm, a, b, 0, na, O_INSERT, &ex, nullptr, ret, ins, a, run};
    fn(o);
  };
  for (size_t p : few_positions(s.n + 1, C::segmax, s.n > 5000 ? 5 : 14, 40)) for (size_t k : ks) {
    if constexpr (E::copyable) {
      Vec ex = m_ins(s.model, p, k, kNew, 0);
      go("insert(count,value)", p, k, 2, ex, p, k, [p, k](S& c) -> long { Tmp<T> v(kNew); return c.index_of(c.insert(c.nth(p), k, const_cast<const T&>(v.get()))); });
    }
    Vec ex = m_ins(s.model, p, k, kNew, 1);
    if constexpr (E::copyable)
      go("insert(range)", p, k, 2, ex, p, k, [p, k](S& c) -> long { Src<T> v(k, kNew); return c.index_of(c.insert(c.nth(p), static_cast<const T*>(v.p), static_cast<const T*>(v.p) + k)); });
    go("insert(move range)", p, k, 2, ex, p, k, [p, k](S& c) -> long { Src<T> v(k, kNew); return c.index_of(c.insert(c.nth(p), std::make_move_iterator(v.p), std::make_move_iterator(v.p + k))); });
    go("insert(input range)", p, k, 2, ex, p, k, [p, k](S& c) -> long { Feed f{kNew, uint32_t(k)}; return c.index_of(c.insert(c.nth(p), FeedIt<T>(&f), FeedIt<T>())); });
    if constexpr (E::copyable) {
      if (k == 0) go("insert(list)", p, k, 2, ex, p, k, [p](S& c) -> long { return c.index_of(c.insert(c.nth(p), std::initializer_list<T>{})); });
      if (k == 2) go("insert(list)", p, k, 2, ex, p, k, [p](S& c) -> long { auto m = W().fault_mask; W().fault_mask = 0; std::initializer_list<T> l{T(mk<T>(kNew)), T(mk<T>(kNew + 1))}; W().fault_mask = m; return c.index_of(c.insert(c.nth(p), l)); });
    }
  }
}
template <class C, class Fn> void ops_assign(State<C>& s, const std::vector<size_t>& ks, Fn fn) {
  using S = typename C::Seq; using T = typename C::T; using E = El<T>;
  auto go = [&](const char* nm, long a, int na, unsigned fl, const Vec& ex, long ins, auto run) {
    Op<S> o{nm, a, 0, 0, na, fl, &ex, nullptr, -1, ins, 0, run};
    fn(o);
  };
  for (size_t k : ks) {
    Vec ex = m_seq(k, kNew, 1), ex1 = m_seq(k, kNew, 0);
    if constexpr (E::copyable) {
      go("assign(count,value)", k, 1, O_ASSIGN, ex1, k, [k](S& c) -> long { Tmp<T> v(kNew); c.assign(k, const_cast<const T&>(v.get())); return -1; });
      go("assign(range)", k, 1, O_ASSIGN, ex, k, [k](S& c) -> long { Src<T> v(k, kNew); c.assign(static_cast<const T*>(v.p), static_cast<const T*>(v.p) + k); return -1; });
    }
    go("assign(input range)", k, 1, O_ASSIGN, ex, k, [k](S& c) -> long { Feed f{kNew, uint32_t(k)}; c.assign(FeedIt<T>(&f), FeedIt<T>()); return -1; });
    go("assign(move range)", k, 1, O_ASSIGN, ex, k, [k](S& c) -> long { Src<T> v(k, kNew); c.assign(std::make_move_iterator(v.p), std::make_move_iterator(v.p + k)); return -1; });
    size_t grow = k > s.n ? k - s.n : 0;
    if constexpr (E::copyable) {
      Vec r(s.model.begin(), s.model.begin() + (k < s.n ? k : s.n)); Vec r0 = r;
      r.resize(k, kNew); 
      go("resize(count,value)", k, 1, O_RESIZE, r, grow, [k](S& c) -> long { Tmp<T> v(kNew); c.resize(k, const_cast<const T&>(v.get())); return -1; });
    }
    if constexpr (E::dflt) {
      Vec r(s.model.begin(), s.model.begin() + (k < s.n ? k : s.n)); r.resize(k, 0);
      go("resize(count)", k, 1, O_RESIZE | (k <= s.n ? O_NOTHROW : 0), r, grow, [k](S& c) -> long { c.resize(k); return -1; });
    }
    if constexpr (E::copyable) {
      if (k == 0) {
        go("assign(list)", k, 1, O_ASSIGN, ex, k, [](S& c) -> long { c.assign(std::initializer_list<T>{}); return -1; });
        go("= list", k, 1, O_ASSIGN, ex, k, [](S& c) -> long { S& r = (c = std::initializer_list<T>{}); if (std::addressof(r) != std::addressof(c)) err("contents", "assignment does not return the sequence"); return -1; });
      }
      if (k == 3) {
        go("assign(list)", k, 1, O_ASSIGN, ex, k, [](S& c) -> long { auto m = W().fault_mask; W().fault_mask = 0; std::initializer_list<T> l{T(mk<T>(kNew)), T(mk<T>(kNew + 1)), T(mk<T>(kNew + 2))}; W().fault_mask = m; c.assign(l); return -1; });
        go("= list", k, 1, O_ASSIGN, ex, k, [](S& c) -> long { auto m = W().fault_mask; W().fault_mask = 0; std::initializer_list<T> l{T(mk<T>(kNew)), T(mk<T>(kNew + 1)), T(mk<T>(kNew + 2))}; W().fault_mask = m; c = l; return -1; });
      }
    }
  }
}
// Algorithms, with the state's distinct values (patterns of equal values have their own checks).
template <class C, class Fn> void ops_algo(State<C>& s, Fn fn) {
  using S = typename C::Seq; using T = typename C::T; using E = El<T>;
  auto go = [&](const char* nm, long a, int na, unsigned fl, const Vec& ex, auto run) {
    Op<S> o{nm, a, 0, 0, na, fl | O_ALGO, &ex, nullptr, -1, 0, 0, run};
    fn(o);
  };
  Vec r(s.model.rbegin(), s.model.rend());
  go("reverse", 0, 0, 0, r, [](S& c) -> long { c.reverse(); return -1; });
  Vec odd; for (auto v : s.model) if (v % 2 == 0) odd.push_back(v);
  go("remove_if(odd)", 0, 0, 0, odd, [](S& c) -> long { c.remove_if([](const T& t) { fault_point(F_PRED); return val(t) % 2 == 1; }); return -1; });
  Vec none;
  go("remove_if(all)", 0, 0, 0, none, [](S& c) -> long { c.remove_if([](const T&) { fault_point(F_PRED); return true; }); return -1; });
  go("remove_if(none)", 0, 0, 0, s.model, [](S& c) -> long { c.remove_if([](const T&) { fault_point(F_PRED); return false; }); return -1; });
  if constexpr (E::cmp) {
    for (size_t p : positions(s.n, C::segmax, 40)) {
      if (s.n > 160) break;
      Vec ex = m_del(s.model, p, p + 1);
      uint32_t v = s.model[p];
      go("remove(value)", p, 1, 0, ex, [v](S& c) -> long { Tmp<T> x(v); c.remove(const_cast<const T&>(x.get())); return -1; });
    }
  }
  Vec u; for (size_t i = 0; i < s.n; ++i) if (i == 0 || s.model[i] / 3 != u.back() / 3) u.push_back(s.model[i]);
  go("unique(third)", 0, 0, 0, u, [](S& c) -> long { c.unique([](const T& a, const T& b) { fault_point(F_PRED); return val(a) / 3 == val(b) / 3; }); return -1; });
  if constexpr (E::cmp) go("unique()", 0, 0, 0, s.model, [](S& c) -> long { c.unique(); return -1; });
  Vec d(s.model); std::stable_sort(d.begin(), d.end(), [](uint32_t x, uint32_t y) { return (x * 7 % 11) > (y * 7 % 11); });
  go("sort(key)", 0, 0, 0, d, [](S& c) -> long { c.sort([](const T& a, const T& b) { fault_point(F_PRED); return (val(a) * 7 % 11) > (val(b) * 7 % 11); }); return -1; });
  if constexpr (E::cmp) go("sort()", 0, 0, 0, s.model, [](S& c) -> long { c.sort(); return -1; });
}
// Constructors: build a container in slot 2 (ended by the caller), the subject is the source where there is one.
template <class C, class Fn> void ops_ctor(State<C>& s, const std::vector<size_t>& ks, Fn fn) {
  using S = typename C::Seq; using T = typename C::T; using E = El<T>; using A = typename C::A;
  auto at2 = []() -> void* { return W().slot[2]; };
  A al{};
  auto go = [&](const char* nm, long a, int na, const Vec& ex, const Vec& ex2, auto run) {
    Op<S> o{nm, a, 0, 0, na, O_CTOR, &ex, &ex2, -1, long(ex2.size()), 0, run};
    fn(o);
  };
  Vec none;
  auto each = [&](size_t k, bool withsrc) {
    (void)withsrc;
    Vec m1 = m_seq(k, kNew, 1), mv = m_seq(k, kNew, 0), m0 = m_seq(k, 0, 0);
    if constexpr (E::dflt) {
      go("seq(count)", k, 1, s.model, m0, [=](S&) -> long { new (at2()) S(k); return -1; });
      go("seq(count,alloc)", k, 1, s.model, m0, [=](S&) -> long { new (at2()) S(k, al); return -1; });
    }
    if constexpr (E::copyable) {
      go("seq(count,value)", k, 1, s.model, mv, [=](S&) -> long { Tmp<T> v(kNew); new (at2()) S(k, const_cast<const T&>(v.get())); return -1; });
      go("seq(range)", k, 1, s.model, m1, [=](S&) -> long { Src<T> v(k, kNew); new (at2()) S(static_cast<const T*>(v.p), static_cast<const T*>(v.p) + k, al); return -1; });
      if (k == 0) go("seq(list)", k, 1, s.model, none, [=](S&) -> long { new (at2()) S(std::initializer_list<T>{}); return -1; });
      if (k == 3) go("seq(list)", k, 1, s.model, m1, [=](S&) -> long { auto m = W().fault_mask; W().fault_mask = 0; std::initializer_list<T> l{T(mk<T>(kNew)), T(mk<T>(kNew + 1)), T(mk<T>(kNew + 2))}; W().fault_mask = m; new (at2()) S(l); return -1; });
    }
    go("seq(input range)", k, 1, s.model, m1, [=](S&) -> long { Feed f{kNew, uint32_t(k)}; new (at2()) S(FeedIt<T>(&f), FeedIt<T>()); return -1; });
    go("seq(move range)", k, 1, s.model, m1, [=](S&) -> long { Src<T> v(k, kNew); new (at2()) S(std::make_move_iterator(v.p), std::make_move_iterator(v.p + k)); return -1; });
  };
  if (s.n == 0) for (size_t k : ks) each(k, false);
  if (s.n == 0) {
    go("seq()", 0, 0, s.model, none, [=](S&) -> long { new (at2()) S; return -1; });
    go("seq(alloc)", 0, 0, s.model, none, [=](S&) -> long { new (at2()) S(al); return -1; });
  }
  Vec rev(s.model.rbegin(), s.model.rend());
  if constexpr (E::copyable) {
    go("seq(const seq&)", 0, 0, s.model, s.model, [=](S& c) -> long { new (at2()) S(const_cast<const S&>(c)); return -1; });
    go("seq(const seq&,alloc)", 0, 0, s.model, s.model, [=](S& c) -> long { new (at2()) S(const_cast<const S&>(c), c.get_allocator()); return -1; });
    go("seq(seq range)", 0, 0, s.model, s.model, [=](S& c) -> long { new (at2()) S(c.cbegin(), c.cend()); return -1; });
    go("seq(reverse seq range)", 0, 0, s.model, rev, [=](S& c) -> long { new (at2()) S(c.rbegin(), c.rend()); return -1; });
  }
  go("seq(seq&&)", 0, 0, none, s.model, [=](S& c) -> long { new (at2()) S(std::move(c)); return -1; });
  go("seq(seq&&,alloc)", 0, 0, none, s.model, [=](S& c) -> long { new (at2()) S(std::move(c), c.get_allocator()); return -1; });
}
// ---------------------------------------------------------------- two-container operations (slots 0 and 1)
template <class C, class Fn> void ops_pair(State<C>& s, Fn fn) {
  using S = typename C::Seq; using T = typename C::T; using E = El<T>;
  auto go = [&](const char* nm, long a, long b, long c_, int na, unsigned fl, const Vec& ex, const Vec& ex2, auto run) {
    Op<S> o{nm, a, b, c_, na, fl | O_PAIR, &ex, &ex2, -1, 0, a, run};
    fn(o);
  };
  auto two = []() -> S& { return Maker<C>::at(1); };
  Vec none;
  const Vec &m = s.model, &m2 = s.model2;
  go("swap", 0, 0, 0, 0, O_NOTHROW, m2, m, [=](S& c) -> long { c.swap(two()); return -1; });
  go("swap(a,b)", 0, 0, 0, 0, O_NOTHROW, m2, m, [=](S& c) -> long { swap(c, two()); return -1; });
  go("= seq&&", 0, 0, 0, 0, O_NOTHROW | O_ASSIGN, m2, none, [=](S& c) -> long { S& r = (c = std::move(two())); if (std::addressof(r) != std::addressof(c)) err("contents", "assignment does not return the sequence"); return -1; });
  if constexpr (E::copyable) {
    go("= const seq&", 0, 0, 0, 0, O_ASSIGN, m2, m2, [=](S& c) -> long { S& r = (c = const_cast<const S&>(two())); if (std::addressof(r) != std::addressof(c)) err("contents", "assignment does not return the sequence"); return -1; });
    go("assign(other range)", 0, 0, 0, 0, O_ASSIGN, m2, m2, [=](S& c) -> long { c.assign(two().cbegin(), two().cend()); return -1; });
  }
  bool lng = s.n + s.n2 > 5000;
  for (size_t p : lng ? few_positions(s.n + 1, C::segmax, 3, 8) : positions(s.n + 1, C::segmax)) {
    Vec ex(m); ex.insert(ex.begin() + p, m2.begin(), m2.end());
    go("splice(pos,seq&)", p, 0, 0, 1, O_INSERT, ex, none, [=](S& c) -> long { c.splice(c.nth(p), two()); return -1; });
    go("splice(pos,seq&&)", p, 0, 0, 1, O_INSERT, ex, none, [=](S& c) -> long { c.splice(c.nth(p), std::move(two())); return -1; });
    auto ps = lng ? few_positions(s.n2 + 1, C::segmax, 5, 8) : positions(s.n2 + 1, C::segmax, 40);
    for (size_t i : ps) {
      if (i < s.n2) {
        Vec e1 = m_ins(m, p, 1, m2[i], 0), e2 = m_del(m2, i, i + 1);
        go("splice(pos,seq&,it)", p, i, 0, 2, O_INSERT, e1, e2, [=](S& c) -> long { c.splice(c.nth(p), two(), two().nth(i)); return -1; });
        go("splice(pos,seq&&,it)", p, i, 0, 2, O_INSERT, e1, e2, [=](S& c) -> long { c.splice(c.nth(p), std::move(two()), two().nth(i)); return -1; });
      }
      for (size_t j : ps) {
        if (j < i) continue;
        Vec e1(m); e1.insert(e1.begin() + p, m2.begin() + i, m2.begin() + j);
        Vec e2 = m_del(m2, i, j);
        go("splice(pos,seq&,first,last)", p, i, j, 3, O_INSERT, e1, e2, [=](S& c) -> long { c.splice(c.nth(p), two(), two().nth(i), two().nth(j)); return -1; });
        if (i == 0 || j == s.n2) go("splice(pos,seq&&,first,last)", p, i, j, 3, O_INSERT, e1, e2, [=](S& c) -> long { c.splice(c.nth(p), std::move(two()), two().nth(i), two().nth(j)); return -1; });
      }
    }
    if constexpr (E::copyable) {
      go("insert(other range)", p, 0, 0, 1, O_INSERT, ex, m2, [=](S& c) -> long { c.insert(c.nth(p), two().begin(), two().end()); return -1; });
    }
  }
  Vec mg; { Vec x(m), y(m2); std::merge(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(mg)); }
  if constexpr (E::cmp) {
    go("merge(seq&)", 0, 0, 0, 0, O_ALGO, mg, none, [=](S& c) -> long { c.merge(two()); return -1; });
    go("merge(seq&&)", 0, 0, 0, 0, O_ALGO, mg, none, [=](S& c) -> long { c.merge(std::move(two())); return -1; });
  }
  Vec all(m); all.insert(all.end(), m2.begin(), m2.end());
  go("merge(seq&,comp)", 0, 0, 0, 0, O_ALGO, all, none, [=](S& c) -> long { c.merge(two(), [](const T&, const T&) { fault_point(F_PRED); return false; }); return -1; });
  go("merge(seq&&,comp)", 0, 0, 0, 0, O_ALGO, all, none, [=](S& c) -> long { c.merge(std::move(two()), [](const T&, const T&) { fault_point(F_PRED); return false; }); return -1; });
}

// ---------------------------------------------------------------- common judgement
template <class S> void op_name(const Op<S>& o) {
  R.op = o.name; R.na = o.na; R.a[0] = o.a; R.a[1] = o.b; R.a[2] = o.c; R.extra[0] = 0;
}
// Element and memory monitors after an operation; `total` elements should be alive.
template <class C> void monitors(size_t total) {
  if constexpr (El<typename C::T>::tracked)
    if (W().live_elems != int64_t(total)) err("life-count", "%lld elements are alive, the sequences hold %zu", (long long)W().live_elems, total);
  if constexpr (!C::rebuild) arena_check();
}
// Runs one operation in the state and compares with the ideal sequence.
template <class C> bool run_plain(State<C>& s, const Op<typename C::Seq>& o, bool full = false) {
  using S = typename C::Seq;
  op_name(o);
  S& c = s.fresh();
  R.transitions++;
  long r = o.run(c);
  bool ok = full ? full_contents(c, *o.expect) : same_contents(c, *o.expect);
  size_t total = o.expect->size();
  if (ok && o.expect2) {
    S& d = Maker<C>::at((o.flags & O_CTOR) ? 2 : 1);
    ok = same_contents(d, *o.expect2, "other-contents");
    total += o.expect2->size();
  } else if (ok && s.pair) total += s.n2;
  if (ok && o.ret >= 0 && r != o.ret) err("returned", "the returned iterator has index %ld, expected %ld", r, o.ret);
  monitors<C>(total);
  if (o.flags & O_CTOR) Maker<C>::at(2).~S();
  return !settle();
}
// Counts distinct outcomes so that a vacuous exploration shows.
inline void outcome(const std::string& k) { R.outcomes[k]++; }

}  // namespace mc
namespace mc {
// Every operation of one container, with argument lists cut to the state's size.
template <class C, class Fn> void all_ops(State<C>& s, Fn fn) {
  ops_single<C>(s, fn);
  ops_erase1<C>(s, fn);
  ops_erase_range<C>(s, fn);
  ops_insert_bulk<C>(s, s.n > 5000 ? std::vector<size_t>{3} : s.n > 24 ? std::vector<size_t>{0, 1, C::segmax + 1} : std::vector<size_t>{0, 1, 2, 3, 6}, fn);
  ops_assign<C>(s, {0, 1, s.n / 2, s.n, s.n + 1, s.n + (s.n > 5000 ? 3 : 2 * C::segmax + 1)}, fn);
  if (s.n <= 160) ops_algo<C>(s, fn);
  ops_ctor<C>(s, upto(40), fn);
}
}  // namespace mc
