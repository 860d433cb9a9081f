// parts: 8
// rule: in every state, every way of reaching every position in range, and positions beyond it up to the limits of size_type, compared with each other and with the ideal list
// C06: all ways of reaching an element agree, and bounds are respected.
#include "../iters.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 0;
  using S = typename C::Seq; using T = typename C::T;
  template <class F> static bool throws(F f) {
    try { f(); } catch (const std::out_of_range&) { return true; } catch (...) { err("lookup", "at() throws something other than std::out_of_range"); return true; }
    return false;
  }
  static void visit(State<C>& s) {
    S& c = s.fresh(); const S& k = c;
    size_t n = s.n;
    std::vector<T*> addr; { size_t i = 0; for (auto it = c.begin(); it != c.end() && i < n; ++it, ++i) addr.push_back(std::addressof(*it)); }
    set_op("walk");
    if (addr.size() != n || c.size() != n) { err("lookup", "iteration meets %zu of %zu elements", addr.size(), n); settle(); return; }
    auto bad = [&](const char* what, size_t i) { err("lookup", "%s at %zu of %zu", what, i, n); };
    for (size_t i : positions(n, C::segmax, 8000)) {
      set_op("index", i);
      R.transitions++;
      T* a = addr[i];
      if (val(*a) != fold<T>(s.model[i])) bad("iteration", i);
      if (std::addressof(c[i]) != a) bad("operator[]", i);
      if (std::addressof(k[i]) != a) bad("const operator[]", i);
      T *p = nullptr, *q = nullptr;
      if (throws([&] { p = std::addressof(c.at(i)); }) || p != a) bad("at", i);
      if (throws([&] { q = const_cast<T*>(std::addressof(k.at(i))); }) || q != a) bad("const at", i);
      auto it = c.nth(i); auto kt = k.nth(i);
      if (std::addressof(*it) != a || it.operator->() != a) bad("nth", i);
      if (std::addressof(*kt) != a) bad("const nth", i);
      if (c.index_of(it) != i || k.index_of(kt) != i || k.index_of(it) != i) bad("index_of", i);
      if (it - c.begin() != ptrdiff_t(i) || k.end() - kt != ptrdiff_t(n - i)) bad("distance", i);
      if (std::addressof(*(c.rbegin() + (n - 1 - i))) != a || std::addressof(*(k.crend() - ptrdiff_t(i + 1))) != a || std::addressof(*(k.rbegin() + (n - 1 - i))) != a) bad("reverse iterator", i);
      // writing through one way shows through all others
      if (n <= 40) {
        uint32_t w = kNew + uint32_t(i);
        El<T>::put(c[i], w); if (val(k.at(i)) != fold<T>(w) || val(*k.nth(i)) != fold<T>(w)) bad("a write through []", i);
        El<T>::put(c.at(i), w + 1); if (val(k[i]) != fold<T>(w + 1)) bad("a write through at", i);
        El<T>::put(*c.nth(i), s.model[i]); if (val(k[i]) != fold<T>(s.model[i])) bad("a write through nth", i);
      }
      if (settle()) return;
    }
    set_op("ends");
    R.checks++;
    if (n) {
      if (std::addressof(c.front()) != addr[0] || std::addressof(k.front()) != addr[0]) bad("front", 0);
      if (std::addressof(c.back()) != addr[n - 1] || std::addressof(k.back()) != addr[n - 1]) bad("back", n - 1);
      if (std::addressof(*c.penultimate()) != addr[n - 1] || std::addressof(*k.penultimate()) != addr[n - 1] || std::addressof(*k.cpenultimate()) != addr[n - 1]) bad("penultimate", n - 1);
      if (c.index_of(c.penultimate()) != n - 1 || k.cpenultimate() + 1 != k.cend()) bad("penultimate position", n - 1);
      if (c.penultimate().begin() != c.nth(n - 1).begin() || c.penultimate().end() != c.nth(n - 1).end() || c.penultimate() - c.begin() != ptrdiff_t(n - 1)) bad("penultimate segment", n - 1);
      if (std::addressof(*c.begin()) != addr[0] || std::addressof(*k.begin()) != addr[0] || std::addressof(*k.cbegin()) != addr[0]) bad("begin", 0);
      if (std::addressof(*c.rbegin()) != addr[n - 1] || std::addressof(*k.rbegin()) != addr[n - 1] || std::addressof(*k.crbegin()) != addr[n - 1]) bad("rbegin", 0);
      if (std::addressof(*(c.rend() - 1)) != addr[0] || std::addressof(*(k.rend() - 1)) != addr[0] || std::addressof(*(k.crend() - 1)) != addr[0]) bad("rend", 0);
    }
    if (c.index_of(c.begin()) != 0 || c.index_of(c.end()) != n || k.index_of(k.cend()) != n || k.index_of(k.end()) != n || k.index_of(k.cbegin()) != 0) bad("index_of of begin or end", n);
    if (size_t(c.end() - c.begin()) != n || size_t(k.cend() - k.cbegin()) != n || size_t(c.rend() - c.rbegin()) != n || size_t(k.crend() - k.crbegin()) != n || size_t(k.rend() - k.rbegin()) != n) bad("end - begin", n);
    if ((c.begin() == c.end()) != (n == 0) || c.empty() != (n == 0)) bad("empty", n);
    if (c.max_size() < n) bad("max_size", n);
    std::vector<size_t> far;
    for (size_t d = 0; d < 6; ++d) far.push_back(n + d);
    // every power of two where truncation could hide it, in the small and in the large states
    if (n <= 9 || n > 24) for (int b = 8; b < 64; ++b) { size_t x = size_t(1) << b; for (size_t y : {x - 1, x, x + n / 2, x + (n ? n - 1 : 0), x + n, x + n + 1}) if (y >= n) far.push_back(y); }
    far.push_back(SIZE_MAX); far.push_back(SIZE_MAX - 1); far.push_back(SIZE_MAX - n); far.push_back(SIZE_MAX / 2); far.push_back(SIZE_MAX / 2 + 1);
    for (size_t x : far) {
      if (x < n) continue;
      snprintf(R.extra, sizeof R.extra, "position %zu", x);
      R.transitions++;
      if (!throws([&] { (void)c.at(x); })) bad("at of a position beyond the end does not throw", x);
      if (!throws([&] { (void)k.at(x); })) bad("const at of a position beyond the end does not throw", x);
      if (c.nth(x) != c.end() || c.index_of(c.nth(x)) != n) bad("nth beyond the end is not end()", x);
      if (k.nth(x) != k.end() || k.index_of(k.nth(x)) != n) bad("const nth beyond the end is not end()", x);
      if (settle()) return;
    }
    if (n) { auto e = c.nth(n); --e; if (std::addressof(*e) != addr[n - 1]) bad("nth(size()) stepped back", n); auto f = c.end(); --f; if (std::addressof(*f) != addr[n - 1]) bad("end() stepped back", n); auto g = k.cend(); --g; if (std::addressof(*g) != addr[n - 1]) bad("cend() stepped back", n); }
    settle();
  }
};
MC_MAIN(suite<V>())
