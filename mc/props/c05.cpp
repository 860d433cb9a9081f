// parts: 8
// rule: in every state, from every element: the block views, and both segment moves with every count that stays in range, compared with the partition of indices into blocks
// C05: segment views and segment jumps are consistent.
#include "../iters.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 0;
  using S = typename C::Seq; using T = typename C::T;
  template <class Q, class It> static void look(Q& c, size_t n, const std::vector<T*>& addr, const std::vector<size_t>& lo, const std::vector<size_t>& hi, const char* kind) {
    auto bad = [&](const char* what, size_t i, long cnt) { err("segment", "%s: %s iterator at %zu, count %ld", what, kind, i, cnt); return false; };
    auto is = [&](It x, size_t t) {
      if (c.index_of(x) != t || x != c.nth(t) || (t == n) != (x == c.end())) return false;
      if (t < n) return std::addressof(*x) == addr[t] && x.current() == addr[t] && x.begin() == addr[lo[t]] && x.end() == addr[hi[t] - 1] + 1;
      if (t > 0) { It y = x; --y; return std::addressof(*y) == addr[t - 1]; }
      return true;
    };
    for (size_t i : few_positions(n, C::segmax, 40)) {
      set_op(kind, i);
      R.checks++;
      It it = c.nth(i);
      if (std::addressof(*it) != addr[i] || it.current() != addr[i] || it.operator->() != addr[i]) bad("current()", i, -1);
      if (it.begin() != addr[lo[i]]) bad("begin()", i, -1);
      if (it.end() != addr[lo[i]] + (hi[i] - lo[i])) bad("end()", i, -1);
      for (size_t k = lo[i]; k < hi[i]; ++k) if (it.begin() + (k - lo[i]) != addr[k]) { bad("the block does not hold the elements in order", i, long(k)); break; }
      if (settle()) return;
      { It x = it; It& r = x.move_after_segment(); if (&r != &x || !is(x, hi[i])) bad("move_after_segment()", i, -1); }
      if (!is(it.after_segment(), hi[i])) bad("after_segment()", i, -1);
      if (lo[i] > 0) {
        { It x = it; It& r = x.move_before_segment(); if (&r != &x || !is(x, lo[i] - 1)) bad("move_before_segment()", i, -1); }
        if (!is(it.before_segment(), lo[i] - 1)) bad("before_segment()", i, -1);
      }
      if (settle()) return;
      auto counts = [&](size_t room) {
        std::vector<size_t> r;
        if (n <= 160) { for (size_t k = 0; k <= room; ++k) r.push_back(k); return r; }
        for (size_t k : {size_t(0), size_t(1), size_t(2), C::segmin - 1, C::segmin, C::segmax - 1, C::segmax, C::segmax + 1, 2 * C::segmax, size_t(250), size_t(65535), size_t(65536), room / 3, room / 2, room - 1, room}) if (k <= room) r.push_back(k);
        for (size_t k = 3; k < room && r.size() < 90; k += 1 + room / 70) r.push_back(k);
        return r;
      };
      for (size_t k : counts(n - hi[i])) {
        R.transitions++;
        { It x = it; It& r = x.move_after_segment(k); if (&r != &x || !is(x, hi[i] + k)) bad("move_after_segment(count)", i, long(k)); }
        if (!is(it.after_segment(k), hi[i] + k)) bad("after_segment(count)", i, long(k));
        if (g_err.set) break;
      }
      if (lo[i] > 0) for (size_t k : counts(lo[i] - 1)) {
        R.transitions++;
        { It x = it; It& r = x.move_before_segment(k); if (&r != &x || !is(x, lo[i] - 1 - k)) bad("move_before_segment(count)", i, long(k)); }
        if (!is(it.before_segment(k), lo[i] - 1 - k)) bad("before_segment(count)", i, long(k));
        if (g_err.set) break;
      }
      if (!(it == c.nth(i)) || std::addressof(*it) != addr[i]) bad("a const jump changed the iterator", i, -1);
      if (settle()) return;
    }
    // from the end position there is no element to start at, but the result must be one position in every respect
    if (n && lo[n - 1] > 0) {
      set_op("from the end position");
      auto one_place = [&](It x, long cnt) {
        size_t t = c.index_of(x);
        if (t >= n || !is(x, t)) bad("before_segment from end() leads to no consistent position", n, cnt);
      };
      It e = c.end();
      one_place(e.before_segment(), -1);
      { It x = e; x.move_before_segment(); one_place(x, -1); }
      if (settle()) return;
    }
    // a whole walk by blocks, both ways, meets every element in order once
    size_t pos = 0; It x = c.begin();
    set_op("walk");
    while (x != c.end()) {
      for (auto p = x.current(); p != x.end(); ++p, ++pos) if (pos >= n || p != addr[pos]) { bad("walking by blocks", pos, -1); settle(); return; }
      x.move_after_segment();
    }
    if (pos != n) bad("walking by blocks ends early", pos, -1);
    if (n) {
      x = c.penultimate();
      for (size_t guard = n + 1; guard--;) {
        for (auto p = x.current();; --p) { if (pos == 0 || p != addr[--pos]) { bad("walking back by blocks", pos, -1); settle(); return; } if (p == x.begin()) break; }
        if (pos == 0) break;
        x.move_before_segment();
      }
    }
    settle();
  }
  static void visit(State<C>& s) {
    S& c = s.fresh();
    size_t n = s.n;
    std::vector<T*> addr;
    for (size_t i = 0; i < n; ++i) addr.push_back(std::addressof(c[i]));
    for (size_t i = 0; i < n; ++i) if (val(*addr[i]) != fold<T>(s.model[i])) { set_op("lookup", i); err("segment", "operator[](%zu) gives another element", i); settle(); return; }
    // the blocks: from the views themselves, checked to partition the sequence in order
    std::vector<size_t> lo(n), hi(n);
    for (size_t i = 0; i < n;) {
      auto it = c.nth(i);
      set_op("block", i);
      size_t len = size_t(it.end() - it.begin());
      if (len == 0 || len > C::segmax || i + len > n || it.begin() != addr[i]) { err("segment", "the block that starts at %zu has %zu elements or another start", i, len); settle(); return; }
      for (size_t k = i; k < i + len; ++k) {
        if (addr[k] != it.begin() + (k - i)) { err("segment", "element %zu is not in its block", k); settle(); return; }
        lo[k] = i; hi[k] = i + len;
      }
      i += len;
    }
    outcome("blocks " + std::to_string(n ? 1 + (lo[n - 1] > 0) : 0));
    look<S, typename S::iterator>(c, n, addr, lo, hi, "mutable");
    look<const S, typename S::const_iterator>(const_cast<const S&>(c), n, addr, lo, hi, "const");
  }
};
MC_MAIN(suite<V>())
