// parts: 8
// rule: in every state, iterators to up to 40 positions and the end are taken; then each operation that is documented to leave them valid runs (sort, sort by an order, a sort whose comparison throws at each of its calls, reverse, every observer and lookup, comparisons, being copied or read from, at() out of bounds), and every old iterator is judged against a fresh one and its element must be where it was; from each, an insertion and an erasure is made
// C36: iterators stay valid where they are promised to.
#include "../iters.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq; using T = typename C::T; using It = typename S::iterator; using Ct = typename S::const_iterator; using Rt = typename S::reverse_iterator;
  struct Kept { std::vector<uint32_t> q; std::vector<It> it; std::vector<Ct> ct; std::vector<Rt> rt; std::vector<const T*> addr; T* ptr = nullptr; };
  static Kept note(S& c, size_t n) {
    Kept k; k.q = few_positions(n, C::segmax, 12, 40); k.q.push_back(uint32_t(n));
    for (size_t i = 0; i < k.q.size(); ++i) {
      size_t q = k.q[i];
      // found, stepped to or jumped to
      It it = i % 3 == 0 ? c.nth(q) : i % 3 == 1 ? c.begin() + ptrdiff_t(q) : c.end() - ptrdiff_t(n - q);
      k.it.push_back(it); k.ct.push_back(it); k.rt.push_back(Rt(it)); k.addr.push_back(q < n ? std::addressof(*it) : nullptr);
    }
    return k;
  }
  static bool follow(S& c, Kept& k, const Vec& m) {
    size_t n = m.size(); const S& cc = c;
    for (size_t i = 0; i < k.q.size() && !g_err.set; ++i) {
      size_t q = k.q[i];
      if (q < n && (std::addressof(*k.it[i]) != k.addr[i] || std::addressof(c[q]) != k.addr[i])) { err("iterator", "element %zu is no longer where it was", q); return false; }
      if (!iter_exact(c, k.it[i], q, m, n <= 60 && i % 5 == 0)) return false;
      if (!(k.ct[i] == cc.nth(q)) || (q < n && std::addressof(*k.ct[i]) != k.addr[i])) { err("iterator", "the const iterator kept for %zu is another", q); return false; }
      if (k.rt[i] != Rt(c.nth(q)) || (q > 0 && std::addressof(*k.rt[i]) != std::addressof(c[q - 1]))) { err("iterator", "the reverse iterator kept for %zu is another", q); return false; }
    }
    return !g_err.set;
  }
  static uint32_t scr(uint32_t v, int w) { return w == 1 ? ~v : w == 2 ? v * 2654435761u >> 7 : w == 3 ? v % 3 : v; }
  template <class F> static bool leaves(State<C>& s, const char* nm, const Vec& m, F f) {
    set_op(nm);
    S& c = s.fresh(); Kept k = note(c, s.n);
    f(c); R.transitions++;
    follow(c, k, m) && full_contents(c, m);
    if (settle()) return false;
    // each of them is good for an edit
    for (size_t i = 0; i < k.q.size(); i += s.n > 60 ? 5 : 1) {
      size_t q = k.q[i];
      for (int way = 0; way < 2; ++way) {
        if (way && q == s.n) continue;
        set_op(nm, q, way);
        S& d = s.fresh(); Kept k2 = note(d, s.n); f(d); R.transitions++;
        auto r = way ? d.erase(k2.ct[i]) : d.insert(k2.ct[i], mk<T>(kNew));
        Vec m2 = way ? m_del(m, q, q + 1) : m_ins(m, q, 1, kNew, 0);
        iter_exact(d, r, q, m2, false) && full_contents(d, m2);
        if (settle()) return false;
      }
    }
    return true;
  }
  static void visit(State<C>& s) {
    const Vec& m = s.model;
    for (int w = 0; w < 4; ++w) {
      Vec r = m; std::stable_sort(r.begin(), r.end(), [&](uint32_t a, uint32_t b) { return scr(fold<T>(a), w) < scr(fold<T>(b), w); });
      static const char* nm[] = {"sort(less)", "sort(greater)", "sort(scrambled)", "sort(many equal)"};
      if (!leaves(s, nm[w], r, [&](S& c) { c.sort([&](const T& a, const T& b) { return scr(val(a), w) < scr(val(b), w); }); })) return;
    }
    { Vec r(m.rbegin(), m.rend()); if (!leaves(s, "reverse", r, [](S& c) { c.reverse(); })) return; }
    if (!leaves(s, "reverse and reverse", m, [](S& c) { c.reverse(); c.reverse(); })) return;
    if (!leaves(s, "observers", m, [&](S& c) {
      const S& k = c; size_t n = s.n; volatile size_t sink = 0;
      sink = k.size() + k.empty() + k.height() + size_t(k.max_size() > 0);
      for (size_t q = 0; q <= n; q += n > 60 ? 7 : 1) { sink = c.index_of(c.nth(q)) + k.index_of(k.nth(q)); if (q < n) { sink = val(c[q]) + val(k[q]) + val(c.at(q)) + val(k.at(q)); } }
      if (n) sink = val(c.front()) + val(c.back()) + val(k.front()) + val(k.back()) + val(*c.penultimate()) + val(*k.penultimate()) + val(*k.cpenultimate());
      for (auto it = c.begin(); it != c.end(); ++it) sink = val(*it);
      for (auto it = k.rbegin(); it != k.crend(); ++it) sink = val(*it);
      try { (void)c.at(n); err("contents", "at(size()) does not throw"); } catch (const std::out_of_range&) {}
      try { (void)k.at(n + 5); err("contents", "at(size() + 5) does not throw"); } catch (const std::out_of_range&) {}
      (void)c.get_allocator(); (void)c.get_stored_allocator(); (void)sink;
      observe(c, std::integral_constant<bool, El<T>::copyable>());
    })) return;
    // a comparison that throws: the order is unspecified, the places are not
    if (s.n <= 8 && !El<T>::tracked) for (size_t at = 1; at < 40; ++at) {
      set_op("sort, comparison throws", at);
      S& c = s.fresh(); Kept k = note(c, s.n); size_t calls = 0; bool threw = false;
      try { c.sort([&](const T& a, const T& b) { if (++calls == at) throw 1; return scr(val(a), 2) < scr(val(b), 2); }); } catch (int) { threw = true; }
      R.transitions++;
      if (size_t(c.size()) != s.n) err("contents", "a failed sort changed the size");
      for (size_t i = 0; i < k.q.size() && !g_err.set; ++i) if (k.q[i] < s.n ? std::addressof(*k.it[i]) != k.addr[i] || std::addressof(c[k.q[i]]) != k.addr[i] : k.it[i] != c.end()) err("iterator", "after a failed sort element %u is no longer where it was", k.q[i]);
      if (settle()) return;
      if (!threw) break;
    }
  }
  template <class Q> static void observe(Q& c, std::true_type) {
    const Q& k = c;
    Q copy(k); Q other(c.get_allocator()); other = k;
    if (!(copy == k) || copy != k || copy < k || copy > k || !(copy <= k) || !(copy >= k) || !(other == k)) err("contents", "a copy is not equal");
    other.insert(other.end(), k.begin(), k.end()); other.assign(k.begin(), k.end());
  }
  template <class Q> static void observe(Q&, std::false_type) {}
};
MC_MAIN(suite<V>())
