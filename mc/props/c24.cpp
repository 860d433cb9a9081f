// parts: 9
// rule: in every state, every operation that takes a value is given every element of the sequence itself (as a const reference, a reference, an rvalue, or a reference to a part of an element) at every position; the result must be that of a value taken beforehand
// C24: arguments may refer to the sequence's own elements.
#include "../suite.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq; using T = typename C::T; using E = El<T>;
  // hole: where an element that was moved from lies afterwards (its value does not matter), -1 if none
  template <class F> static bool one(State<C>& s, const char* nm, long k, long p, long cnt, const Vec& ex, long hole, long ret, F f) {
    set_op(nm, k, p, cnt);
    S& c = s.fresh(); R.transitions++;
    long r = f(c);
    if (hole >= 0) { if (c.size() == ex.size()) El<T>::put(c[size_t(hole)], ex[size_t(hole)]); }
    same_contents(c, ex);
    if (!g_err.set && ret >= 0 && r != ret) err("returned", "the returned iterator has index %ld, expected %ld", r, ret);
    monitors<C>(ex.size());
    return !settle();
  }
  static void visit(State<C>& s) {
    size_t n = s.n; const Vec& m = s.model;
    bool big = n > 26;
    auto ks = few_positions(n, C::segmax, n > 5000 ? 7 : 12, 26), ps = few_positions(n + 1, C::segmax, n > 5000 ? 7 : 14, 26);
    std::vector<size_t> cnts = big ? std::vector<size_t>{1, C::segmax + 1} : std::vector<size_t>{0, 1, 2, 3, C::segmax + 2, 3 * C::segmax + 1};
    if (n > 5000) cnts = {3};
    for (size_t k : ks) {
      uint32_t v = m[k];
      for (size_t p : ps) {
        Vec ex = m_ins(m, p, 1, v, 0);
        long hole = long(k < p ? k : k + 1), at = long(p);
        if constexpr (E::copyable) {
          if (!one(s, "insert(const c[k]&)", k, p, 1, ex, -1, at, [=](S& c) -> long { const T& x = c[k]; return long(c.index_of(c.insert(c.nth(p), x))); })) return;
          if (!one(s, "emplace(c[k])", k, p, 1, ex, -1, at, [=](S& c) -> long { return long(c.index_of(c.emplace(c.nth(p), c[k]))); })) return;
          for (size_t q : cnts)
            if (!one(s, "insert(count,c[k])", k, p, q, m_ins(m, p, q, v, 0), -1, at, [=](S& c) -> long { return long(c.index_of(c.insert(c.nth(p), q, c[k]))); })) return;
        }
        if (!one(s, "insert(c[k]&&)", k, p, 1, ex, hole, at, [=](S& c) -> long { return long(c.index_of(c.insert(c.nth(p), std::move(c[k])))); })) return;
        if (!one(s, "emplace(c[k]&&)", k, p, 1, ex, hole, at, [=](S& c) -> long { return long(c.index_of(c.emplace(c.nth(p), std::move(c[k])))); })) return;
        if constexpr (E::tracked)
          if (!one(s, "emplace(part of c[k])", k, p, 1, ex, -1, at, [=](S& c) -> long { return long(c.index_of(c.emplace(c.nth(p), c[k].b.v))); })) return;
      }
      Vec eb = m_ins(m, n, 1, v, 0), ef = m_ins(m, 0, 1, v, 0);
      if constexpr (E::copyable) {
        if (!one(s, "push_back(c[k])", k, 0, 1, eb, -1, -1, [=](S& c) -> long { c.push_back(c[k]); return -1; })) return;
        if (!one(s, "push_front(c[k])", k, 0, 1, ef, -1, -1, [=](S& c) -> long { c.push_front(c[k]); return -1; })) return;
        if (!one(s, "emplace_back(c[k])", k, 0, 1, eb, -1, -1, [=](S& c) -> long { c.emplace_back(c[k]); return -1; })) return;
        if (!one(s, "emplace_front(c[k])", k, 0, 1, ef, -1, -1, [=](S& c) -> long { c.emplace_front(c[k]); return -1; })) return;
        std::vector<size_t> sizes = big ? std::vector<size_t>{n / 2, n + 1, n + C::segmax + 1} : upto(n + 2 * C::segmax + 2);
        if (n > 5000) sizes = {n - 3, n + 3};
        for (size_t q : sizes) {
          Vec r(m.begin(), m.begin() + std::min(q, n)); r.resize(q, v);
          if (!one(s, "resize(count,c[k])", k, 0, q, r, -1, -1, [=](S& c) -> long { c.resize(q, c[k]); return -1; })) return;
        }
        if constexpr (E::cmp) if (n <= 5000) {
          Vec r; for (auto x : m) if (fold<T>(x) != fold<T>(v)) r.push_back(x);
          if (!one(s, "remove(c[k])", k, 0, 0, r, -1, -1, [=](S& c) -> long { c.remove(c[k]); return -1; })) return;
          // and where every third element equals it
          set_op("remove(c[k]), every third equal", k);
          S& c = s.fresh(); R.transitions++;
          Vec w(m), r2; for (size_t i = k % 3; i < n; i += 3) w[i] = v;
          Maker<C>::relabel(0, w);
          for (auto x : w) if (fold<T>(x) != fold<T>(v)) r2.push_back(x);
          c.remove(c[k]);
          same_contents(c, r2); monitors<C>(r2.size());
          if (settle()) return;
        }
      }
      if (!one(s, "push_back(c[k]&&)", k, 0, 1, eb, long(k), -1, [=](S& c) -> long { c.push_back(std::move(c[k])); return -1; })) return;
      if (!one(s, "push_front(c[k]&&)", k, 0, 1, ef, long(k + 1), -1, [=](S& c) -> long { c.push_front(std::move(c[k])); return -1; })) return;
      if constexpr (E::tracked) {
        if (!one(s, "emplace_back(part of c[k])", k, 0, 1, eb, -1, -1, [=](S& c) -> long { c.emplace_back(c[k].b.v); return -1; })) return;
        if (!one(s, "emplace_front(part of c[k])", k, 0, 1, ef, -1, -1, [=](S& c) -> long { c.emplace_front(c[k].b.v); return -1; })) return;
      }
    }
    // references obtained through iterators and front()/back()
    if constexpr (E::copyable) if (n) {
      if (!one(s, "push_back(front())", 0, 0, 1, m_ins(m, n, 1, m[0], 0), -1, -1, [](S& c) -> long { c.push_back(c.front()); return -1; })) return;
      if (!one(s, "push_front(back())", 0, 0, 1, m_ins(m, 0, 1, m[n - 1], 0), -1, -1, [](S& c) -> long { c.push_front(c.back()); return -1; })) return;
      if (!one(s, "insert(it,*it)", 0, 0, 1, m_ins(m, n / 2, 1, m[n / 2], 0), -1, long(n / 2), [n](S& c) -> long { auto it = c.cbegin(); it += ptrdiff_t(n / 2); return long(c.index_of(c.insert(it, *it))); })) return;
    }
  }
};
// long arguments: counts that no longer fit 8 or 16 bits
template <class C> struct VL {
  using S = typename C::Seq; using T = typename C::T;
  static void visit(State<C>& s) {
    const Vec& m = s.model; size_t n = s.n;
    for (size_t c : {size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537), size_t(70001)})
      for (size_t k : {size_t(0), n / 2, n - 1}) {
        for (size_t p : {size_t(0), n / 2, n - 1, n})
          if (!V<C>::one(s, "insert(pos,count,c[k])", p, k, 2, m_ins(m, p, c, m[k], 0), -1, long(p), [=](S& q) -> long { return long(q.index_of(q.insert(q.nth(p), c, q[k]))); })) return;
        Vec r(m); r.resize(c, m[k]);
        if (!V<C>::one(s, "resize(count,c[k])", c, k, 2, r, -1, -1, [=](S& q) -> long { q.resize(c, q[k]); return -1; })) return;
      }
  }
};
void go() {
  suite<V>();
#if PART == 9
  from<Cfg<uint32_t, 64, 47, 0, 256, 768>>("long arguments u32", fills({65}, false), 0, 0, VL<Cfg<uint32_t, 64, 47, 0, 256, 768>>::visit);
  from<Cfg<TF, 5, 4>>("long arguments Trk 5,4", fills({6}, false), 0, 0, VL<Cfg<TF, 5, 4>>::visit);
#endif
}
MC_MAIN(go())
