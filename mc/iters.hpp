// Judging iterators: an iterator for position q must be indistinguishable from a fresh one.
#pragma once
#include "suite.hpp"
namespace mc {
// Positions an iterator at q is moved to.
inline std::vector<uint32_t> targets(size_t n, size_t q, size_t segmax) {
  if (n <= 40) { std::vector<uint32_t> r; for (size_t i = 0; i <= n; ++i) r.push_back(uint32_t(i)); return r; }
  auto r = few_positions(n + 1, segmax, 12, 40);
  for (long d : {-1L, 1L, -long(segmax), long(segmax), -long(segmax) - 1, long(segmax) + 1}) { long t = long(q) + d; if (t >= 0 && t <= long(n)) r.push_back(uint32_t(t)); }
  return r;
}
template <class S, class It> bool iter_exact(S& c, It it, size_t q, const Vec& m, bool deep) {
  using T = typename S::value_type;
  size_t n = m.size();
  auto bad = [&](const char* what) { err("iterator", "%s (index %zu of %zu)", what, q, n); return false; };
  R.checks++;
  It fresh = c.nth(q);
  if (c.index_of(it) != q) { err("iterator", "index_of gives %zu for the iterator that should be at %zu", size_t(c.index_of(it)), q); return false; }
  if (!(it == fresh) || it != fresh || it < fresh || it > fresh || !(it <= fresh) || !(it >= fresh)) return bad("does not compare equal to a fresh iterator");
  It b = c.begin(), e = c.end();
  if (it - b != ptrdiff_t(q) || e - it != ptrdiff_t(n - q) || it - fresh != 0) return bad("distances to begin or end are wrong");
  if ((q == n) != (it == e)) return bad("comparison with end() is wrong");
  if (q < n) {
    if (std::addressof(*it) != std::addressof(*fresh)) return bad("refers to another element than a fresh iterator");
    if (val(*it) != fold<T>(m[q])) return bad("refers to an element with another value");
    if (it.operator->() != fresh.operator->() || it.current() != fresh.current()) return bad("current() differs from a fresh iterator");
    if (it.begin() != fresh.begin() || it.end() != fresh.end()) return bad("the segment differs from a fresh iterator's");
    It a = it, fa = fresh;
    a.move_after_segment(); fa.move_after_segment();
    if (a != fa || (a != e && std::addressof(*a) != std::addressof(*fa))) return bad("move_after_segment differs from a fresh iterator");
    if (fresh.current() - fresh.begin() < ptrdiff_t(q)) {
      It p = it, fp = fresh;
      p.move_before_segment(); fp.move_before_segment();
      if (p != fp || std::addressof(*p) != std::addressof(*fp)) return bad("move_before_segment differs from a fresh iterator");
    }
  }
  // one step each way
  if (q < n) { It x = it; ++x; It f = c.nth(q + 1); if (x != f || (q + 1 < n && std::addressof(*x) != std::addressof(*f))) return bad("++ leads elsewhere"); }
  if (q > 0) { It x = it; --x; It f = c.nth(q - 1); if (x != f || std::addressof(*x) != std::addressof(*f) || x.begin() != f.begin() || x.end() != f.end()) return bad("-- leads elsewhere"); }
  for (size_t t : targets(n, q, std::max<size_t>(1, size_t(q < n ? it.end() - it.begin() : 1)))) {
    It x = it + (ptrdiff_t(t) - ptrdiff_t(q)), f = c.nth(t);
    if (x != f || c.index_of(x) != t) return bad("a jump leads to another index");
    if (t < n && (std::addressof(*x) != std::addressof(*f) || x.begin() != f.begin() || x.end() != f.end())) return bad("a jump leads to another element or segment");
    if (t < n && std::addressof(it[ptrdiff_t(t) - ptrdiff_t(q)]) != std::addressof(*f)) return bad("[] gives another element");
  }
  if (deep) {
    It x = it;
    for (size_t i = q; i < n; ++i, ++x) if (val(*x) != fold<T>(m[i])) return bad("stepping forward meets other elements");
    if (x != e) return bad("stepping forward does not end at end()");
    for (size_t i = n; i-- > 0;) { --x; if (val(*x) != fold<T>(m[i])) return bad("stepping back from the end meets other elements"); }
    x = it;
    for (size_t i = q; i-- > 0;) { --x; if (val(*x) != fold<T>(m[i])) return bad("stepping back meets other elements"); }
    if (x != b) return bad("stepping back does not end at begin()");
  }
  return true;
}
}  // namespace mc
