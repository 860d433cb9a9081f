// Every way of reaching a position, and every edit at the handle reached.
#pragma once
#include "iters.hpp"
namespace mc {
// The ways: those that do not apply at a position of a state give no handle.
template <class C> struct Handles {
  using S = typename C::Seq; using T = typename C::T; using It = typename S::iterator; using Ct = typename S::const_iterator;
  static const std::vector<const char*>& names() {
    static const std::vector<const char*> v{
        "nth(p)", "begin()+p", "end()-(n-p)", "++ from begin()", "-- from end()", "penultimate()+-", "rend()-p", "rbegin()+(n-p)",
        "++ from nth(p-1)", "-- from nth(p+1)", "after_segment()", "before_segment()", "after_segment(count)", "before_segment(count)",
        "move_after_segment() stepwise", "past the end and back", "from the middle", "assigned over another", "swapped with another", "-- after a whole traversal",
        "const nth(p)", "cbegin()+p", "cend()-(n-p)", "-- from cend()", "cpenultimate()+-", "crbegin()+(n-p)", "converted"};
    return v;
  }
  static constexpr int mutables = 20, all = 27;
  template <class I> static ptrdiff_t in_segment(I it) { return it.current() - it.begin(); }
  template <class I> static ptrdiff_t left_in_segment(I it) { return it.end() - it.current(); }
  // Calls f with the handle; false when this way does not lead to p.
  template <class F> static bool reach(S& c, int way, size_t p, size_t n, F f) {
    const S& k = c;
    ptrdiff_t q = ptrdiff_t(p), m = ptrdiff_t(n);
    switch (way) {
      case 0: return f(c.nth(p)), true;
      case 1: return f(c.begin() + q), true;
      case 2: return f(c.end() - (m - q)), true;
      case 3: { It it = c.begin(); for (size_t i = 0; i < p; ++i) ++it; return f(it), true; }
      case 4: { It it = c.end(); for (size_t i = n; i > p; --i) --it; return f(it), true; }
      case 5: { if (!n) return false; It it = c.penultimate(); if (p == n) ++it; else if (p + 2 == n) --it; else if (p + 1 != n) it += q - (m - 1); return f(it), true; }
      case 6: { auto r = c.rend(); r -= q; return f(r.base()), true; }
      case 7: { auto r = c.rbegin(); r += m - q; return f(r.base()), true; }
      case 8: { if (!p) return false; It it = c.nth(p - 1); ++it; return f(it), true; }
      case 9: { if (p >= n) return false; It it = c.nth(p + 1); --it; return f(it), true; }
      case 10: { if (!p) return false; It it = c.nth(p - 1); if (left_in_segment(it) != 1) return false; return f(it.after_segment()), true; }
      // before_segment() leads to the last element of the block before
      case 11: { if (p + 1 >= n || left_in_segment(c.nth(p)) != 1) return false; It it = c.nth(p + 1); it += left_in_segment(it) - 1; return f(it.before_segment()), true; }
      // a block's end, then elements counted from there
      case 12: { if (!p) return false; It at = c.nth(p == n ? p - 1 : p); size_t start = (p == n ? p - 1 : p) - size_t(in_segment(at)); if (!start) return false; It x = c.nth(start - 1); x -= in_segment(x); return f(x.after_segment(p - start)), true; }
      case 13: { if (p >= n) return false; It at = c.nth(p); size_t e = p + size_t(left_in_segment(at)); if (e >= n) return false; It x = c.nth(e); x += left_in_segment(x) - 1; return f(x.before_segment(e - 1 - p)), true; }
      case 14: { It it = c.begin(); size_t at = 0, guard = n + 1; while (at < p && guard--) { It nx = it; size_t l = size_t(left_in_segment(nx)); if (at + l > p) break; nx.move_after_segment(); at += l; it = nx; } it += q - ptrdiff_t(at); return f(it), true; }
      case 15: { It it = c.nth(p); it += m - q; it -= m - q; return f(it), true; }
      case 16: { It it = c.nth(n / 2); it += q - ptrdiff_t(n / 2); return f(it), true; }
      case 17: { It it = c.end(); it = c.nth(p); It it2(it); it = std::move(it2); return f(it), true; }
      case 18: { It a = c.nth(p), b = c.end(); using std::swap; swap(a, b); return f(b), true; }
      case 19: { It it = c.begin(); for (size_t i = 0; i < n; ++i) ++it; for (size_t i = n; i > p; --i) it--; return f(it), true; }
      case 20: return f(k.nth(p)), true;
      case 21: return f(c.cbegin() + q), true;
      case 22: return f(c.cend() - (m - q)), true;
      case 23: { Ct it = k.cend(); for (size_t i = n; i > p; --i) --it; return f(it), true; }
      case 24: { if (!n) return false; Ct it = k.cpenultimate(); if (p == n) ++it; else if (p + 2 == n) --it; else if (p + 1 != n) it += q - (m - 1); return f(it), true; }
      case 25: { auto r = k.crbegin(); r += m - q; return f(r.base()), true; }
      case 26: { Ct it = c.nth(p); Ct it2; it2 = c.end(); it2 = it; return f(it2), true; }
    }
    return false;
  }
  // All edits at the handle, each judged; the edits that need room return what a fresh position would.
  static void sweep(State<C>& s, size_t most_positions, bool bulk) {
    size_t n = s.n; const Vec& m = s.model;
    for (size_t p : few_positions(n + 1, C::segmax, most_positions, most_positions <= 26 ? 26 : 160)) {
      for (int way = 0; way < all; ++way) {
        if (n > 300 && (way == 3 || way == 4 || way == 19 || way == 23)) continue;
        bool applies = true;
        auto start = [&](const char* what, long extra = 0) -> S& { set_op(what, long(p), extra); R.na = 1; snprintf(R.extra, sizeof R.extra, "at %s", names()[size_t(way)]); S& c = s.fresh(); R.transitions++; return c; };
        auto done = [&] { return settle(); };
        // the handle itself
        { S& c = start("reach"); applies = reach(c, way, p, n, [&](auto it) { judge(c, it, p, m); }); if (done()) return; }
        if (!applies) continue;
        auto edit = [&](const char* what, size_t q, const Vec& expect, auto f) {
          S& c = start(what);
          reach(c, way, p, n, [&](auto it) { auto r = f(c, it); if (c.index_of(r) != q) err("returned", "the returned iterator has index %zu, expected %zu", size_t(c.index_of(r)), q); else if (iter_exact(c, r, q, expect, false)) same_contents(c, expect); });
          monitors<C>(expect.size());
          return done();
        };
        if (edit("insert", p, m_ins(m, p, 1, kNew, 0), [](S& c, auto it) { return c.insert(it, mk<T>(kNew)); })) return;
        if (p < n && edit("erase", p, m_del(m, p, p + 1), [](S& c, auto it) { return c.erase(it); })) return;
        if (!bulk) continue;
        size_t k = C::segmax > 500 ? 3 : C::segmax + 1;
        if (edit("insert(range)", p, m_ins(m, p, k, kNew, 1), [k](S& c, auto it) { Src<T> v(k, kNew); return c.insert(it, std::make_move_iterator(v.p), std::make_move_iterator(v.p + k)); })) return;
        if (edit("erase(it,end())", p, m_del(m, p, n), [](S& c, auto it) { return c.erase(it, decltype(it)(c.end())); })) return;
        if (edit("erase(begin(),it)", 0, m_del(m, 0, p), [](S& c, auto it) { return c.erase(decltype(it)(c.begin()), it); })) return;
        if (p < n && edit("erase(it,it+1)", p, m_del(m, p, p + 1), [](S& c, auto it) { auto l = it; ++l; return c.erase(it, l); })) return;
        { S& c = start("splice");
          S& d = Builder<C>::spare(c);
          for (uint32_t i = 0; i < 2; ++i) d.push_back(mk<T>(kNew + i));
          reach(c, way, p, n, [&](auto it) { c.splice(it, d); });
          same_contents(c, m_ins(m, p, 2, kNew, 1)); if (!d.empty()) err("contents", "the spliced sequence is not empty");
          d.~S(); monitors<C>(n + 2); if (done()) return; }
        // the handle as a bound of what is spliced out
        { S& c = start("splice out [it,end())");
          S& d = Builder<C>::spare(c); Vec rest(m.begin() + long(p), m.end());
          reach(c, way, p, n, [&](auto it) { d.splice(d.end(), c, it, decltype(it)(c.end())); });
          if (same_contents(c, m_del(m, p, n))) same_contents(d, rest, "other-contents");
          d.~S(); if (done()) return; }
        { S& c = start("splice out [begin(),it)");
          S& d = Builder<C>::spare(c); Vec head(m.begin(), m.begin() + long(p));
          reach(c, way, p, n, [&](auto it) { d.splice(d.begin(), c, decltype(it)(c.begin()), it); });
          if (same_contents(c, m_del(m, 0, p))) same_contents(d, head, "other-contents");
          d.~S(); if (done()) return; }
      }
    }
    R.checks++;
  }
  static void judge(S& c, It it, size_t p, const Vec& m) { iter_exact(c, it, p, m, false); }
  static void judge(S& c, Ct it, size_t p, const Vec& m) { iter_exact(const_cast<const S&>(c), it, p, m, false); }
};
}  // namespace mc
