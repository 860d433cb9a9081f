// parts: 9
// rule: in every state, every edit that returns an iterator is run at every position and the iterator compared with a fresh one in every respect: index, element, segment, distances, jumps to every position, both stepping directions, and every following single edit through it
// C03: iterators returned by edits are exact and usable at once.
#include "../iters.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 4;
  using S = typename C::Seq; using T = typename C::T;
  // what is done with the returned iterator
  static void use(State<C>& s, const Op<S>& o) {
    if (o.ret < 0) return;
    size_t q = size_t(o.ret);
    const Vec& m = *o.expect;
    // 1: judged against a fresh one
    {
      op_name(o);
      S& c = s.fresh(); R.transitions++;
      long r = o.run(c);
      if (r != o.ret) err("returned", "the returned iterator has index %ld, expected %ld", r, o.ret);
      if (settle()) return;
    }
  }
  template <class F> static void with(State<C>& s, const char* nm, long a, long b, int na, size_t q, const Vec& m, F edit) {
    bool deep = s.n <= 24;
    auto start = [&](const char* then) -> S& { set_op(nm, a, b); R.na = na; snprintf(R.extra, sizeof R.extra, "%s", then); S& c = s.fresh(); R.transitions++; return c; };
    // judged against a fresh iterator, as mutable and as const
    { S& c = start(""); auto it = edit(c); if (iter_exact(c, it, q, m, deep)) { typename S::const_iterator k = it; iter_exact(const_cast<const S&>(c), k, q, m, false); } monitors<C>(m.size()); if (settle()) return; }
    // used as the position of a further insertion, whose result is used again
    { Vec m2 = m_ins(m, q, 1, kNew + 500, 0); Vec m3 = m_ins(m2, q, 1, kNew + 501, 0);
      S& c = start("then insert twice at it"); auto it = edit(c); it = c.insert(it, mk<T>(kNew + 500)); if (iter_exact(c, it, q, m2, false)) { it = c.insert(it, mk<T>(kNew + 501)); iter_exact(c, it, q, m3, false) && same_contents(c, m3); } monitors<C>(m3.size()); if (settle()) return; }
    // insertion after the new element
    if (deep) { Vec m2 = m_ins(m, q, 1, kNew + 500, 0); Vec m3 = m_ins(m2, q + 1, 1, kNew + 501, 0);
      S& c = start("then insert at it and behind"); auto it = edit(c); it = c.insert(it, mk<T>(kNew + 500)); ++it; it = c.insert(it, mk<T>(kNew + 501)); if (iter_exact(c, it, q + 1, m3, false)) same_contents(c, m3); if (settle()) return; }
    // erasing at it, until the end
    if (q < m.size()) { Vec m2 = m_del(m, q, q + 1);
      S& c = start("then erase at it"); auto it = edit(c); it = c.erase(it); if (iter_exact(c, it, q, m2, false)) same_contents(c, m2); monitors<C>(m2.size()); if (settle()) return; }
    if (deep && q < m.size()) { Vec m2(m.begin(), m.begin() + q);
      S& c = start("then erase to the end"); auto it = edit(c); size_t guard = m.size() + 2; while (it != c.end() && guard--) it = c.erase(it); if (iter_exact(c, it, q, m2, false)) same_contents(c, m2); if (settle()) return; }
    // erasing the element before it
    if (deep && q > 0) { Vec m2 = m_del(m, q - 1, q);
      S& c = start("then erase before it"); auto it = edit(c); --it; it = c.erase(it); if (iter_exact(c, it, q - 1, m2, false)) same_contents(c, m2); if (settle()) return; }
    if (deep && q > 0) { Vec m2 = m_del(m, 0, q);
      S& c = start("then erase [begin,it)"); auto it = edit(c); it = c.erase(c.begin(), it); if (iter_exact(c, it, 0, m2, false)) same_contents(c, m2); if (settle()) return; }
  }
  static void visit(State<C>& s) {
    const Vec& o = s.model;
    for (size_t p : few_positions(s.n + 1, C::segmax, 16, 26)) {
      if constexpr (El<T>::copyable) with(s, "insert(const T&)", p, 0, 1, p, m_ins(o, p, 1, kNew, 0), [p](S& c) { Tmp<T> v(kNew); return c.insert(c.nth(p), const_cast<const T&>(v.get())); });
      with(s, "insert(T&&)", p, 0, 1, p, m_ins(o, p, 1, kNew, 0), [p](S& c) { Tmp<T> v(kNew); return c.insert(c.nth(p), std::move(v.get())); });
      with(s, "emplace", p, 0, 1, p, m_ins(o, p, 1, kNew, 0), [p](S& c) { Tmp<T> v(kNew); return c.emplace(c.nth(p), std::move(v.get())); });
      if (p < s.n) with(s, "erase", p, 0, 1, p, m_del(o, p, p + 1), [p](S& c) { return c.erase(c.nth(p)); });
      for (size_t k : s.n <= 40 ? std::vector<size_t>{0, 1, 2, 4} : std::vector<size_t>{0, C::segmax > 5000 ? 2 : C::segmax + 1}) {
        if constexpr (El<T>::copyable) {
          with(s, "insert(count,value)", p, k, 2, p, m_ins(o, p, k, kNew, 0), [p, k](S& c) { Tmp<T> v(kNew); return c.insert(c.nth(p), k, const_cast<const T&>(v.get())); });
          if (k == 2) with(s, "insert(list)", p, k, 2, p, m_ins(o, p, 2, kNew, 1), [p](S& c) { return c.insert(c.nth(p), {T(mk<T>(kNew)), T(mk<T>(kNew + 1))}); });
        }
        with(s, "insert(move range)", p, k, 2, p, m_ins(o, p, k, kNew, 1), [p, k](S& c) { Src<T> v(k, kNew); return c.insert(c.nth(p), std::make_move_iterator(v.p), std::make_move_iterator(v.p + k)); });
      }
    }
    auto ps = few_positions(s.n + 1, C::segmax, 7, 24);
    for (size_t i : ps) for (size_t j : ps) if (i <= j)
      with(s, "erase(first,last)", i, j, 2, i, m_del(o, i, j), [i, j](S& c) { return c.erase(c.nth(i), c.nth(j)); });
  }
};
// long arguments: counts that no longer fit 8 or 16 bits
template <class C> struct VL {
  using S = typename C::Seq; using T = typename C::T;
  static void visit(State<C>& s) {
    const Vec& o = s.model;
    std::vector<size_t> ps = s.n < 7 ? std::vector<size_t>{0, s.n / 2, s.n} : std::vector<size_t>{0, 1, s.n / 2, s.n - 1, s.n};
    for (size_t p : ps) for (size_t k : {size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537), size_t(70001)}) {
      V<C>::with(s, "insert(count,value)", p, k, 2, p, m_ins(o, p, k, kNew, 0), [p, k](S& c) { Tmp<T> v(kNew); return c.insert(c.nth(p), k, const_cast<const T&>(v.get())); });
      V<C>::with(s, "insert(range)", p, k, 2, p, m_ins(o, p, k, kNew, 1), [p, k](S& c) { Src<T> v(k, kNew); return c.insert(c.nth(p), static_cast<const T*>(v.p), static_cast<const T*>(v.p) + k); });
      V<C>::with(s, "insert(input range)", p, k, 2, p, m_ins(o, p, k, kNew, 1), [p, k](S& c) { Feed f{kNew, uint32_t(k)}; return c.insert(c.nth(p), FeedIt<T>(&f), FeedIt<T>()); });
    }
  }
};
void longer() {
#if PART == 9
  from<Cfg<uint32_t, 64, 47, 0, 256, 768>>("long arguments u32", fills({1, 65}, false), 0, 0, VL<Cfg<uint32_t, 64, 47, 0, 256, 768>>::visit);
  from<Cfg<uint16_t, 65536, 3, 0, 131072, 0>>("long arguments long block u16", fills({300}, false), 0, 0, VL<Cfg<uint16_t, 65536, 3, 0, 131072, 0>>::visit);
  from<Cfg<uint32_t, 5, 4>>("long arguments u32 5,4", fills({6}, false), 0, 0, VL<Cfg<uint32_t, 5, 4>>::visit);
#endif
}
MC_MAIN(suite<V>(), longer())
