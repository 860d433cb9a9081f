// parts: 8
// asan: 3 5
// build 6: g++ -std=c++20 -O1 -D_GLIBCXX_ASSERTIONS
// build 7: clang++ -std=c++23 -O1 -D_GLIBCXX_ASSERTIONS
// build 8: g++ -std=c++23 -O1 -D_GLIBCXX_ASSERTIONS
// minimal: dbase dalone dbraces dmixed dadaptors dinserters dvalues dstrings dmoveonly dstreams dscoped dmembers dconversions dtraits diterators drecursive dbracedargs dconst dvocabulary dranges
// variants: g++ -std=c++11; clang++ -std=c++14; g++ -std=c++17; clang++ -std=c++20; g++ -std=c++23
// rule: breadth-first search over every history of edits written once for any container with the interface that std::vector and std::deque have in common (positions given by mutable, const and reverse iterators, distances and comparisons between kinds), run in step on a sequence, a vector and a deque, every observation of every operation compared; every history of std::stack, std::queue and std::priority_queue over a sequence against the same over a deque or vector; every block structure of every size within the bound read and edited through C++20 ranges, views, projections and const sentinels over every subrange; and programs that use each part of the interface, compiled in every standard from C++11 to C++23 by both compilers
// C37: written for std::vector or std::deque.
#include "../suite.hpp"
#include <chrono>
#include <deque>
#include <list>
#include <forward_list>
#include <queue>
#include <stack>
#include <numeric>
#if __cplusplus >= 202002L
#include <ranges>
#endif
namespace mc {
template <class T, size_t SM, size_t BM> using Sq = typename StdCfg<T, SM, BM>::Seq;
template <class S> std::string shape_of(const S& s) {
  std::string k; k += char('0' + s.height());
  for (auto it = s.begin(), e = s.end(); it != e; it.move_after_segment()) k += char('A' + (it.end() - it.begin()));
#ifdef BOOST_SEGMENTED_TREE_VERIFY
  s.verify_shape([&](size_t v) { k += char('A' + v); });
#endif
  return k;
}
inline void mix(std::string& o, long v) { char b[24]; snprintf(b, sizeof b, " %ld", v); o += b; }
// ------------------------------------------------------------------ one text for any of the three containers
template <class C> auto front_in(C& c, typename C::value_type v, int) -> decltype(c.push_front(v)) { c.push_front(v); }
template <class C> void front_in(C& c, typename C::value_type v, long) { c.insert(c.begin(), v); }
template <class C> auto front_out(C& c, int) -> decltype(c.pop_front()) { c.pop_front(); }
template <class C> void front_out(C& c, long) { c.erase(c.begin()); }
struct POp { char k; uint32_t a, b, c; };
template <class C> struct Prog {
  using T = typename C::value_type; using It = typename C::iterator; using CI = typename C::const_iterator;
  static T V(uint32_t v) { return mk<T>(v); }
  // the same position, written the ways a program may write it
  static CI at(C& c, size_t i, int how) {
    using D = typename C::difference_type; const C& k = c; D d = D(i), n = D(c.size());
    switch (how % 6) {
      case 0: return c.begin() + d;
      case 1: return c.cbegin() + d;
      case 2: return c.end() - (n - d);
      case 3: return std::next(k.begin(), d);
      case 4: return (c.rend() - d).base();
      default: return std::prev(c.cend(), n - d);
    }
  }
  static void where(C& c, It r, std::string& o) {
    mix(o, long(r - c.begin())); mix(o, long(r - c.cbegin())); mix(o, long(c.cend() - r)); mix(o, r == c.cend()); mix(o, c.cend() != r); mix(o, r <= c.cbegin()); mix(o, c.cbegin() < r); mix(o, r > c.cbegin()); mix(o, c.cend() >= r);
    if (r != c.cend()) mix(o, long(val(*r)));
  }
  static void run(C& c, POp p, std::string& o) {
    size_t a = p.a, b = p.b; uint32_t v = p.c ? p.c : 1; int how = int(a + 2 * b + c.size()); auto P = [&](size_t i) { return at(c, i, how++); };
    using D = typename C::difference_type;
    switch (p.k) {
      case 'i': { const T t = V(v); where(c, c.insert(P(a), t), o); break; }
      case 'I': where(c, c.insert(P(a), V(v)), o); break;
      case 'n': { const T t = V(v); where(c, c.insert(P(a), b, t), o); break; }
      case 'N': for (size_t i = 0; i < b; ++i) c.push_back(V(uint32_t(1 + i * 7 % 101))); break;
      case 'r': { std::list<T> l; for (size_t i = 0; i < b; ++i) l.push_back(V(1 + (v + i) % 2)); where(c, c.insert(P(a), l.begin(), l.end()), o); break; }
      case 'R': { std::forward_list<T> l; for (size_t i = 0; i < b; ++i) l.push_front(V(1 + (v + i) % 2)); where(c, c.insert(P(a), l.cbegin(), l.cend()), o); break; }
      case 'l': where(c, c.insert(P(a), {V(v), V(2), V(1)}), o); break;
      case 'E': where(c, c.emplace(P(a), V(v)), o); break;
      case 'e': where(c, c.erase(P(a)), o); break;
      case 'x': where(c, c.erase(P(a), P(b)), o); break;
      case 'p': { const T t = V(v); c.push_back(t); break; }
      case 'P': c.push_back(V(v)); break;
      case 'q': c.emplace_back(V(v)); break;
      case 'f': front_in(c, V(v), 0); break;
      case 'b': c.pop_back(); break;
      case 'g': front_out(c, 0); break;
      case 'A': { const T t = V(v); c.assign(b, t); break; }
      case 'B': { std::list<T> l; for (size_t i = 0; i < b; ++i) l.push_back(V(1 + (v + i) % 2)); c.assign(l.begin(), l.end()); break; }
      case 'C': c.assign({V(v), V(1)}); break;
      case 'D': c = {V(v), V(2), V(v)}; break;
      case 'Z': c = {}; break;
      case 'z': c.clear(); break;
      case 's': c.resize(b); break;
      case 'S': { const T t = V(v); c.resize(b, t); break; }
      case 'c': { C d(c); C e = {}; e = d; d.clear(); mix(o, e == c); mix(o, d == c); c = std::move(e); break; }
      case 'm': { C d(std::move(c)); c = C(); C e; e = std::move(d); using std::swap; swap(c, e); mix(o, e.empty()); break; }
      case 'w': { C d(b, V(v)); c.swap(d); mix(o, long(d.size())); mix(o, d < c); std::swap(c, d); c.insert(c.end(), d.begin(), d.end()); break; }
      case 'L': { C d(c.begin() + D(a), c.begin() + D(b)); mix(o, long(d.size())); mix(o, d < c); mix(o, d <= c); mix(o, d > c); mix(o, d >= c); mix(o, d != c); c.insert(P(a), d.rbegin(), d.rend()); break; }
      case 'u': c.erase(std::unique(c.begin(), c.end()), c.end()); break;
      case 'M': { const T t = V(v); c.erase(std::remove(c.begin(), c.end(), t), c.cend()); break; }
      case 'y': { const T t = V(v); std::sort(c.begin(), c.end()); where(c, c.insert(std::upper_bound(c.begin(), c.end(), t), t), o); mix(o, std::is_sorted(c.cbegin(), c.cend())); break; }
      case 'o': { auto r = std::rotate(c.begin() + D(a), c.begin() + D(b), c.end()); where(c, r, o); break; }
      case 'O': { std::vector<T> t(c.begin() + D(a), c.begin() + D(b)); std::copy(t.begin(), t.end(), std::inserter(c, c.begin() + D(a))); break; }
      case 'k': { std::vector<T> t(c.rbegin(), c.rend()); std::copy(t.begin(), t.end(), std::back_inserter(c)); break; }
      case 'h': { auto r = c.rbegin() + D(a); where(c, c.erase(std::next(r).base()), o); break; }
      case 't': for (auto it = c.begin(); it != c.cend();) { if (val(*it) == v) it = c.erase(it); else ++it; } break;
      case 'T': for (auto it = c.begin(); it != c.end(); ++it) if (val(*it) == v) { it = c.insert(it, V(3 - v)); ++it; } break;
      case 'j': for (auto& x : c) x = V(3 - val(x)); break;
      case 'X': { bool threw = false; try { c.at(c.size() + a); } catch (std::out_of_range const&) { threw = true; } try { static_cast<C const&>(c).at(c.size()); } catch (std::exception const&) { threw = !threw; } mix(o, threw); break; }
      case 'K': { auto al = c.get_allocator(); C d(c, al), e(std::move(d), al), g({V(v), V(2)}, al), h(b, V(v), al), i(b, al), j(c.cbegin(), c.cend(), al); mix(o, e == c); mix(o, long(g.size() + h.size() + i.size())); mix(o, j == c); g.insert(g.begin(), h.begin(), h.end()); c.insert(c.cbegin(), g.cbegin(), g.cend()); break; }
    }
  }
  static const char* name_of(char k) {
    switch (k) {
      case 'i': return "insert(pos, lvalue)"; case 'N': return "filled"; case 'I': return "insert(pos, rvalue)"; case 'n': return "insert(pos, n, value)"; case 'r': return "insert(pos, list range)"; case 'R': return "insert(pos, forward_list range)";
      case 'l': return "insert(pos, {...})"; case 'E': return "emplace"; case 'e': return "erase(pos)"; case 'x': return "erase(first, last)"; case 'p': case 'P': return "push_back"; case 'q': return "emplace_back"; case 'f': return "push_front";
      case 'b': return "pop_back"; case 'g': return "pop_front"; case 'A': return "assign(n, value)"; case 'B': return "assign(list range)"; case 'C': return "assign({...})"; case 'D': return "= {...}"; case 'Z': return "= {}"; case 'z': return "clear";
      case 's': return "resize(n)"; case 'S': return "resize(n, value)"; case 'c': return "copied about"; case 'm': return "moved about"; case 'w': return "swapped about"; case 'L': return "insert(pos, reversed part of a copy)"; case 'u': return "erase-unique"; case 'M': return "erase-remove";
      case 'y': return "sort and insert sorted"; case 'o': return "std::rotate"; case 'O': return "std::inserter"; case 'k': return "std::back_inserter"; case 'h': return "erase(reverse base)"; case 't': return "erase while iterating"; case 'T': return "insert while iterating"; case 'j': return "range-for"; case 'X': return "at beyond the end"; default: return "constructors with allocators";
    }
  }
};
template <class C, class T> bool same(const C& c, const std::vector<T>& m) {
  if (size_t(c.size()) != m.size() || c.empty() != m.empty()) { err("contents", "size is %zu, on a vector %zu", size_t(c.size()), m.size()); return false; }
  size_t i = 0; for (auto& x : c) { if (!(x == m[i])) { err("contents", "element %zu differs from the vector's", i); return false; } ++i; }
  i = m.size(); for (auto it = c.rbegin(); it != c.rend(); ++it) if (!(*it == m[--i])) { err("contents", "element %zu backwards differs from the vector's", i); return false; }
  for (i = 0; i < m.size(); ++i) if (!(c[i] == m[i]) || !(c.at(i) == m[i])) { err("contents", "element %zu by index differs from the vector's", i); return false; }
  if (!m.empty() && (!(c.front() == m.front()) || !(c.back() == m.back()))) { err("contents", "front or back differs from the vector's"); return false; }
  return true;
}
template <class S> struct Step3 {
  using T = typename S::value_type; using V = std::vector<T>; using Q = std::deque<T>;
  // at every position, or at those near block borders
  template <class Fn> static void each(const V& m, size_t most, Fn fn, size_t border = 0) {
    size_t n = m.size();
    auto go = [&](char k, size_t a = 0, size_t b = 0, size_t c = 0) { fn(POp{k, uint32_t(a), uint32_t(b), uint32_t(c)}); };
    std::vector<size_t> ps;
    for (size_t p = 0; p <= n; ++p) if (!border || p < 2 || p + 2 > n || p == n / 2 || ((p + 1) % border < 3 && (p < 2 * border || p + 2 * border > n))) ps.push_back(p);
    for (size_t p : ps) {
      if (n < most) { go('i', p, 0, 1 + p % 2); go('I', p, 0, 1 + (n + p) % 2); go('E', p, 0, 2); }
      for (size_t k = 0; n + k <= most && k < 5; ++k) { go('n', p, k, 1); if (k % 2 == 0) go('r', p, k, 1); else go('R', p, k, 2); }
      if (border) for (size_t k : {border / 2, border, 3 * border + 1}) { go('n', p, k, 1); go('r', p, k, 2); }
      if (n + 3 <= most) go('l', p, 0, 1);
      for (size_t q : ps) if (p <= q) { go('x', p, q); if (n + q - p <= most) { go('L', p, q); go('O', p, q); } go('o', p, q); }
      if (p < n) { go('e', p); go('h', p); }
    }
    if (n < most) { go('p', 0, 0, 1); go('P', 0, 0, 2); go('q', 0, 0, 1); go('f', 0, 0, 2); go('y', 0, 0, 2); }
    if (n) { go('b'); go('g'); }
    for (size_t k : {size_t(0), size_t(1), n, n + 1, most}) if (k <= most) { go('A', 0, k, 2); go('B', 0, k, 1); go('s', 0, k); go('S', 0, k, 2); if (n + k <= most) go('w', 0, k, 1); }
    if (most >= 3) { go('C', 0, 0, 2); go('D', 0, 0, 1); }
    go('Z'); go('z'); go('c'); go('m'); go('u'); go('M', 0, 0, 1); go('t', 0, 0, 2); if (2 * n <= most) { go('k'); go('T', 0, 0, 1); } go('j'); go('X', n % 3); if (n + 4 <= most) go('K', 0, 2, 1);
  }
  static std::string text(const std::vector<POp>& h) { std::string s; char b[32]; for (auto& p : h) { snprintf(b, sizeof b, "%s%c%u,%u,%u", s.empty() ? "" : " ", p.k, p.a, p.b, p.c); s += b; } return s; }
  static bool judge(const std::vector<POp>& h, POp p, std::string* key, V* after) {
    S s; V m; Q q; std::string os, om, oq;
    // (libstdc++'s deque moves strings onto themselves when nothing is inserted; they come out empty)
    constexpr bool deque_too = std::is_trivially_copyable<T>::value;
    for (auto& x : h) { Prog<S>::run(s, x, os); Prog<V>::run(m, x, om); if (deque_too) Prog<Q>::run(q, x, oq); }
    os.clear(); om.clear(); oq.clear();
    Prog<S>::run(s, p, os); Prog<V>::run(m, p, om); if (deque_too) Prog<Q>::run(q, p, oq);
    R.transitions++; R.checks++; R.progress = R.progress + 1;
    if (deque_too && (om != oq || !std::equal(m.begin(), m.end(), q.begin(), q.end()))) { fprintf(stderr, "the vector and the deque disagree on %s after %s: %s and%s\n", Prog<S>::name_of(p.k), text(h).c_str(), om.c_str(), oq.c_str()); _exit(3); }
    if (os != om) err("observed", "a program observes%s, on a vector and on a deque%s", os.c_str(), om.c_str());
    same(s, m);
    if (key && !g_err.set) { *key = shape_of(s); *key += ':'; for (auto& x : m) *key += char('a' + val(x)); *after = m; }
    return !settle();
  }
  static void explore(const char* name, size_t most, size_t depth, size_t vals, std::vector<POp> start = {}, size_t border = 0) {
    R.cfg = name;
    auto t0 = std::chrono::steady_clock::now();
    if (!R.replay_cfg.empty()) {
      if (R.replay_cfg != name) return;
      std::vector<POp> h; const char* s = R.replay_hist.c_str(); int used; char k; unsigned a, b, c;
      while (sscanf(s, " %c%u,%u,%u%n", &k, &a, &b, &c, &used) == 4) { POp p{k, a, b, c}; R.hist = text(h); set_op(Prog<S>::name_of(k), a, b, c); if (!judge(h, p, nullptr, nullptr)) return; h.push_back(p); s += used; }
      return;
    }
    struct St { std::vector<POp> h; V m; };
    std::vector<St> st; for (auto& p : start) { St x; std::string o; x.h.push_back(p); Prog<V>::run(x.m, p, o); st.push_back(x); } if (st.empty()) st.push_back(St()); std::unordered_map<std::string, int> seen;
    seen.emplace(shape_of(S()) + ":", 0);
    // once a block structure has been seen with `vals` different contents, no more of it are added
    std::unordered_map<std::string, size_t> per;
    for (size_t i = 0; i < st.size(); ++i) {
      R.states++; R.cfg_states[name]++;
      St s = st[i];
      each(s.m, most, [&](POp p) {
        R.hist = text(s.h); set_op(Prog<S>::name_of(p.k), p.a, p.b, p.c);
        std::string k; V after;
        if (!judge(s.h, p, &k, &after) || s.h.size() >= depth) return;
        if (!seen.emplace(k, 0).second) return;
        size_t& have = per[k.substr(0, k.find(':'))];
        if (have >= vals) return;
        ++have;
        St n{s.h, after}; n.h.push_back(p); st.push_back(n);
      }, border);
    }
    R.counts["edges"] = R.transitions;
    R.counts["replays"] += R.cfg_states[name];
    R.counts[std::string("shapes ") + name] = per.size();
    R.counts[std::string("ms ") + name] += uint64_t(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count());
  }
};
// ------------------------------------------------------------------ adaptors
template <class A> auto top_of(const A& a, int) -> decltype(a.top()) { return a.top(); }
template <class A> auto top_of(const A& a, long) -> decltype(a.front()) { return a.front(); }
template <class A> auto last_of(const A& a, int) -> decltype(a.back()) { return a.back(); }
template <class A> auto last_of(const A& a, long) -> decltype(a.top()) { return a.top(); }
template <class A> auto equal_to(const A& a, const A& b, int) -> decltype(a == b) { return a == b && !(a != b) && !(a < b) && a <= b; }
template <class A> bool equal_to(const A& a, const A& b, long) { return a.size() == b.size(); }
template <class A, class B> struct Adapt {
  using T = typename A::value_type;
  static uint64_t limit;
  static bool judge(const A& a, const B& b, const std::string& h) {
    R.transitions++; R.checks++; R.progress = R.progress + 1;
    R.hist = h;
    if (size_t(a.size()) != b.size() || a.empty() != b.empty()) err("adaptor", "size is %zu, over a standard container %zu", size_t(a.size()), size_t(b.size()));
    else if (!b.empty() && (!(top_of(a, 0) == top_of(b, 0)) || !(last_of(a, 0) == last_of(b, 0)))) err("adaptor", "front or top differs from the standard container's");
    return !settle();
  }
  static bool drain(A a, B b, const std::string& h) {
    set_op("draining a copy");
    while (!b.empty()) { if (!judge(a, b, h)) return false; a.pop(); b.pop(); }
    return judge(a, b, h);
  }
  static void apply(A& a, B& b, char k) {
    switch (k) {
      case 'p': case 'q': case 'r': { const T t = mk<T>(uint32_t(k - 'o')); set_op("push(lvalue)"); a.push(t); b.push(t); break; }
      case 'e': set_op("emplace"); a.emplace(mk<T>(2)); b.emplace(mk<T>(2)); break;
      case 'o': set_op("pop"); a.pop(); b.pop(); break;
      case 'c': { set_op("copied"); A x(a), y; y = x; a = y; if (!equal_to(a, x, 0)) err("adaptor", "a copy does not compare equal"); break; }
      case 'm': { set_op("moved and swapped"); A x(std::move(a)), y; y = std::move(x); A z; z.push(mk<T>(1)); using std::swap; swap(y, z); z.swap(y); swap(a, z); a = std::move(y); break; }
    }
  }
  static void dfs(A& a, B& b, std::string& h, size_t depth, size_t pushes) {
    R.states++; R.cfg_states[R.cfg]++;
    if (!judge(a, b, h)) return;
    if (depth == 0) { drain(a, b, h); return; }
    for (char k : {'p', 'q', 'r', 'e', 'o', 'c', 'm'}) {
      if (k == 'o' && b.empty()) continue;
      if ((k == 'c' || k == 'm') && (depth != 1)) continue;
      A x(a); B y(b); apply(x, y, k); h.push_back(k); dfs(x, y, h, depth - 1, pushes); h.pop_back();
    }
  }
  static void explore(const char* name, size_t fill, size_t depth) {
    R.cfg = name;
    A a; B b; std::string h;
    if (!R.replay_cfg.empty()) {
      if (R.replay_cfg != name) return;
      for (char k : R.replay_hist) { if (k == 'f') { a.push(mk<T>(2)); b.push(mk<T>(2)); } else apply(a, b, k); h.push_back(k); if (!judge(a, b, h) || !drain(a, b, h)) return; }
      return;
    }
    for (size_t i = 0; i < fill; ++i) { a.push(mk<T>(2)); b.push(mk<T>(2)); h.push_back('f'); }
    dfs(a, b, h, depth, 0);
    R.counts["edges"] = R.transitions;
    R.counts["replays"]++;
  }
};
// ------------------------------------------------------------------ ranges
#if __cplusplus >= 202002L
namespace rg = std::ranges; namespace vw = std::views;
template <class S> struct Ranged {
  using T = typename S::value_type; using V = std::vector<T>; using It = typename S::iterator; using CI = typename S::const_iterator;
  static_assert(std::random_access_iterator<It> && std::random_access_iterator<CI> && std::sortable<It>);
  static_assert(std::sentinel_for<CI, It> && std::sentinel_for<It, CI> && std::sized_sentinel_for<CI, It> && std::sized_sentinel_for<It, CI> && std::totally_ordered_with<It, CI>);
  static_assert(rg::random_access_range<S> && rg::random_access_range<const S> && rg::sized_range<S> && rg::common_range<S> && !rg::contiguous_range<S>);
  static_assert(std::regular<S> && std::totally_ordered<S> && std::indirectly_writable<It, T> && std::output_iterator<It, T> && !std::output_iterator<CI, T>);
  struct Make { std::string ops; };
  // a state: pushes at the end, insertions in front or in the middle, erasures
  static void play(S& s, const std::string& ops) {
    for (char k : ops) switch (k) {
      case 'p': s.push_back(T()); break; case 'f': s.push_front(T()); break; case 'i': s.insert(s.begin() + ptrdiff_t(s.size() / 2), T()); break;
      case 'e': s.erase(s.begin() + ptrdiff_t(s.size() / 2)); break; case 'b': s.pop_back(); break; case 'g': s.pop_front(); break;
    }
  }
  static void label(S& s, V& m, int pat) {
    m.clear(); size_t i = 0, n = s.size();
    for (auto& x : s) { uint32_t v = uint32_t(pat == 0 ? i : pat == 1 ? i * 5 % 7 : pat == 2 ? i % 3 : pat == 3 ? n - i : i / 2); x = mk<T>(v); m.push_back(x); ++i; }
  }
  template <class X> static auto sub(X& x, size_t i, size_t j, int kind) { (void)kind; return rg::subrange(x.begin() + ptrdiff_t(i), x.cbegin() + ptrdiff_t(j)); }
  template <class F> static bool both(const std::string& h, const char* nm, S& s, V& m, size_t i, size_t j, int pat, F f) {
    set_op(nm, long(i), long(j), pat); R.hist = h; R.transitions++; R.checks++; R.progress = R.progress + 1;
    std::string a, b;
    f(sub(s, i, j, 0), a); f(sub(m, i, j, 0), b);
    if (a != b) err("ranges", "%s gives%s, on a vector%s", nm, a.c_str(), b.c_str());
    else same(s, m);
    return settle();
  }
  template <class R2> static void all(R2&& r, std::string& o) { for (auto&& x : r) mix(o, long(val(x))); }
  static long v(const T& t) { return long(val(t)); }
  static bool reads(const std::string& h, S& s, V& m, size_t i, size_t j, int pat) {
#define DO(name, ...) if (both(h, name, s, m, i, j, pat, [&](auto r, std::string& o) { __VA_ARGS__; })) return true;
    auto proj = [](const T& t) { return uint32_t(val(t)); };
    DO("views::reverse", all(r | vw::reverse, o); all(vw::reverse(rg::subrange(r.begin(), r.begin() + rg::distance(r))), o))
    DO("views::take and drop", for (ptrdiff_t k = 0; k <= 3; ++k) { all(r | vw::take(k), o); all(r | vw::drop(k), o); all(r | vw::drop(k) | vw::reverse | vw::take(2), o); })
    DO("views::filter and transform", all(r | vw::filter([](const T& t) { return val(t) % 2 == 0; }), o); for (long x : r | vw::transform([](const T& t) { return long(val(t)) * 3; }) | vw::reverse) mix(o, x))
    DO("views::take_while and drop_while", all(r | vw::take_while([](const T& t) { return val(t) < 3; }), o); all(r | vw::drop_while([](const T& t) { return val(t) < 3; }), o))
    DO("views::split", for (auto w : vw::split(r, mk<T>(1))) { o += " |"; all(w, o); })
    DO("views::common and counted", auto c = r | vw::common; for (auto it = c.begin(); it != c.end(); ++it) mix(o, v(*it)); all(vw::counted(r.begin(), rg::distance(r)), o); mix(o, long(c.size())); mix(o, long(r.size())))
    DO("subrange", mix(o, long(r.size())); mix(o, r.empty()); if (!r.empty()) { mix(o, v(r.front())); mix(o, v(r[long(r.size()) - 1])); auto t = r.next(long(r.size())); mix(o, t.empty()); auto u = r; u.advance(1); mix(o, long(u.size())); auto [a, b] = r; mix(o, b - a); mix(o, a - b); mix(o, a == b); mix(o, b == a); })
    DO("counted_iterator, common_iterator", std::counted_iterator c(r.begin(), rg::distance(r)); for (; c != std::default_sentinel; ++c) mix(o, v(*c)); using CC = std::common_iterator<decltype(r.begin()), std::unreachable_sentinel_t>; CC x(r.begin()); for (size_t k = 0; k < size_t(rg::distance(r)); ++k) { mix(o, v(*x)); ++x; })
    DO("ranges::find, count, all_of", mix(o, rg::find(r, 2u, proj) - r.begin()); mix(o, rg::count(r, 1u, proj)); mix(o, rg::all_of(r, [](uint32_t x) { return x < 9; }, proj)); mix(o, rg::find_if_not(r, [](uint32_t x) { return x == 0; }, proj) - r.begin()))
    DO("ranges::equal, mismatch", mix(o, rg::equal(r, r | vw::reverse, {}, proj, proj)); auto x = rg::mismatch(r, r | vw::drop(1), {}, proj, proj); mix(o, x.in1 - r.begin()); mix(o, rg::lexicographical_compare(r | vw::drop(1), r, {}, proj, proj)))
    DO("ranges::search, find_end, adjacent_find", auto x = rg::search(r, r | vw::drop(rg::distance(r) / 2)); mix(o, x.begin() - r.begin()); auto y = rg::find_end(r, r | vw::take(1)); mix(o, y.begin() - r.begin()); mix(o, rg::adjacent_find(r, {}, proj) - r.begin()))
    DO("ranges::min, max, minmax_element", mix(o, rg::min_element(r, {}, proj) - r.begin()); mix(o, rg::max_element(r, {}, proj) - r.begin()); auto x = rg::minmax_element(r, rg::greater{}, proj); mix(o, x.min - r.begin()); mix(o, x.max - r.begin()))
    DO("ranges::lower_bound, equal_range, binary_search", auto e = rg::is_sorted_until(r, {}, proj); rg::subrange t(r.begin(), e); for (uint32_t k = 0; k < 6; ++k) { mix(o, rg::lower_bound(t, k, {}, proj) - r.begin()); mix(o, rg::upper_bound(t, k, {}, proj) - r.begin()); mix(o, rg::binary_search(t, k, {}, proj)); auto q = rg::equal_range(t, k, {}, proj); mix(o, long(rg::distance(q))); })
    DO("ranges::copy out", V w; rg::copy(r, std::back_inserter(w)); rg::reverse_copy(r, std::back_inserter(w)); rg::copy_if(r, std::back_inserter(w), [](uint32_t x) { return x % 2; }, proj); rg::copy_n(r.begin(), rg::distance(r) / 2, std::back_inserter(w)); all(w, o))
    DO("ranges::advance with a bound", auto it = r.begin(); ptrdiff_t left = rg::advance(it, 3, r.end()); mix(o, left); mix(o, it - r.begin()); rg::advance(it, r.end()); mix(o, it - r.begin()); left = rg::advance(it, -2, r.begin()); mix(o, left); mix(o, it - r.begin()); mix(o, rg::next(r.begin(), 2, r.end()) - r.begin()); mix(o, rg::distance(r.begin(), r.end())))
    DO("inserted into another", std::remove_cvref_t<decltype(s)> w; w.insert(w.begin(), r.begin(), r.begin() + rg::distance(r)); auto t = r | vw::reverse | vw::common; w.insert(w.cend(), t.begin(), t.end()); w.assign(w.rbegin(), w.rend()); all(w, o))
    DO("iter_move and iter_swap", if (rg::distance(r) > 1) { auto a = r.begin(), b = r.begin() + 1; rg::iter_swap(a, b); mix(o, v(*a)); T t = rg::iter_move(a); *a = rg::iter_move(b); *b = std::move(t); })
#if __cplusplus > 202002L && !defined(__clang__)
    DO("views::zip", for (auto [a, b] : vw::zip(r, r | vw::reverse)) { mix(o, v(a)); mix(o, v(b)); })
    DO("views::chunk and slide", for (auto w : r | vw::chunk(3)) { o += " |"; all(w, o); } for (auto w : r | vw::slide(2)) { o += " |"; all(w, o); } for (auto w : r | vw::chunk(2) | vw::reverse) { o += " |"; all(w, o); })
    DO("views::adjacent", for (auto [a, b, c] : r | vw::adjacent<3>) { mix(o, v(a)); mix(o, v(b)); mix(o, v(c)); })
    DO("views::stride", for (int k = 1; k < 5; ++k) { all(r | vw::stride(k), o); all(r | vw::stride(k) | vw::reverse, o); })
    DO("views::cartesian_product", if (rg::distance(r) <= 5) for (auto [a, b] : vw::cartesian_product(r, r)) { mix(o, v(a)); mix(o, v(b)); })
    DO("views::as_const", all(r | vw::as_const, o))
    DO("ranges::fold_left, contains, starts_with", mix(o, rg::contains(r, 2u, proj)); mix(o, rg::fold_left(r, 1L, [](long a, const T& t) { return (a * 7 + long(val(t))) % 100003; })))
#endif
#undef DO
    return false;
  }
  static bool edits(const std::string& h, S& s, V& m, size_t i, size_t j, int pat) {
#define DO(name, ...) label(s, m, pat); if (both(h, name, s, m, i, j, pat, [&](auto r, std::string& o) { __VA_ARGS__; })) return true;
    auto proj = [](const T& t) { return uint32_t(val(t)); }; auto half = [](const T& t) { return uint32_t(val(t)) / 2; };
    DO("ranges::sort", mix(o, rg::sort(r, rg::greater{}, proj) - r.begin()))
    DO("ranges::stable_sort", mix(o, rg::stable_sort(r, {}, half) - r.begin()))
    DO("ranges::partial_sort, nth_element", auto mid = r.begin() + rg::distance(r) / 2; rg::partial_sort(r.begin(), mid, r.end(), {}, proj); rg::nth_element(r.begin(), mid, r.end(), {}, proj); if (mid != r.end()) mix(o, v(*mid)); rg::sort(r, {}, proj))
    DO("ranges heap", rg::make_heap(r, {}, proj); mix(o, rg::is_heap(r, {}, proj)); if (!r.empty()) { rg::pop_heap(r, {}, proj); rg::push_heap(r, {}, proj); } rg::sort_heap(r, {}, proj))
    DO("ranges::rotate", auto x = rg::rotate(r, r.begin() + rg::distance(r) / 3); mix(o, x.begin() - r.begin()))
    DO("ranges::shift", auto x = std::shift_left(r.begin(), r.begin() + rg::distance(r), 2); mix(o, x - r.begin()); for (auto it = x; it != r.end(); ++it) *it = mk<T>(9))
    DO("std::shift_right", auto x = std::shift_right(r.begin(), r.begin() + rg::distance(r), 1); for (auto it = r.begin(); it != x; ++it) *it = mk<T>(9))
    DO("ranges::reverse", rg::reverse(r); rg::reverse(r | vw::take(3)))
    DO("ranges::unique, remove", auto x = rg::unique(r, {}, half); mix(o, long(x.size())); for (auto& t : x) t = mk<T>(7); auto y = rg::remove(r, 2u, proj); mix(o, long(y.size())); for (auto& t : y) t = mk<T>(8))
    DO("ranges::partition", auto x = rg::stable_partition(r, [](uint32_t k) { return k % 2; }, proj); mix(o, x.begin() - r.begin()); auto y = rg::partition(r, [](uint32_t k) { return k % 3 == 0; }, proj); mix(o, y.begin() - r.begin()); rg::sort(r, {}, proj))
    DO("ranges::inplace_merge", auto mid = r.begin() + rg::distance(r) / 2; rg::sort(r.begin(), mid, {}, proj); rg::sort(mid, r.end(), {}, proj); rg::inplace_merge(r, mid, {}, proj))
    DO("ranges::fill, generate, transform", rg::fill(r | vw::take(2), mk<T>(5)); uint32_t k = 0; rg::generate(r | vw::drop(2), [&] { return mk<T>(k++); }); rg::transform(r, r.begin(), [](uint32_t x) { return mk<T>(x + 1); }, proj); rg::replace(r, 2u, mk<T>(6), proj))
    DO("ranges::swap_ranges, copy within", auto h2 = rg::distance(r) / 2; rg::swap_ranges(r | vw::take(h2), r | vw::drop(rg::distance(r) - h2)); if (rg::distance(r) > 1) { rg::copy(r | vw::drop(1), r.begin()); rg::copy_backward(r | vw::take(rg::distance(r) - 1), r.end() - 0 == r.end() ? r.begin() + rg::distance(r) : r.begin()); rg::move_backward(r.begin(), r.begin() + 1, r.begin() + rg::distance(r)); })
    DO("ranges::next_permutation", for (int k = 0; k < 3; ++k) mix(o, rg::next_permutation(r, {}, proj).found); mix(o, rg::prev_permutation(r, {}, proj).found))
    DO("views written through", for (auto& x : r | vw::filter([](const T& t) { return val(t) % 2 == 1; })) x = mk<T>(val(x) + 4); uint32_t k = 0; for (auto& x : r | vw::reverse | vw::drop(1)) x = mk<T>(k++))
#if __cplusplus > 202002L && !defined(__clang__)
    DO("zip sorted by another", std::vector<int> w(size_t(rg::distance(r))); std::iota(w.rbegin(), w.rend(), 0); auto z = vw::zip(w, rg::subrange(r.begin(), r.begin() + rg::distance(r))); rg::sort(z, {}, [](const auto& p) { return std::get<0>(p); }))
#endif
#undef DO
    return false;
  }
  static void explore(const char* name, size_t most, size_t full) {
    R.cfg = name;
    std::vector<std::string> st{""}; std::unordered_map<std::string, int> seen;
    for (size_t i = 0; i < st.size(); ++i) {
      std::string h = st[i]; 
      if (R.replay_cfg.empty() || (R.replay_cfg == name && R.replay_hist == h)) {
        R.states++; R.cfg_states[name]++;
        S s; V m; play(s, h); size_t n = s.size();
        for (int pat = 0; pat < 5; ++pat) {
          std::vector<size_t> ps; for (size_t k = 0; k <= n; ++k) if (n <= full || k < 3 || k + 3 > n || k % 3 == 0) ps.push_back(k);
          for (size_t a : ps) for (size_t b : ps) if (a <= b) {
            label(s, m, pat); if (reads(h, s, m, a, b, pat)) return;
            if (edits(h, s, m, a, b, pat)) return;
          }
        }
      }
      for (char k : {'p', 'f', 'i', 'e', 'b', 'g'}) {
        S s; play(s, h);
        if (k == 'p' || k == 'f' || k == 'i' ? s.size() >= most : s.empty()) continue;
        play(s, std::string(1, k));
        if (seen.emplace(shape_of(s), 0).second) st.push_back(h + k);
      }
    }
    R.counts["edges"] = R.transitions; R.counts["replays"] += R.cfg_states[name];
  }
};
#endif
using namespace std;
void go() {
  bool deep = R.thorough();
#if PART == 1
  Step3<Sq<uint32_t, 2, 3>>::explore("u32 2,3", deep ? 11 : 9, 60, deep ? 12 : 6);
#elif PART == 2
  Step3<Sq<uint32_t, 3, 3>>::explore("u32 3,3", deep ? 17 : 13, 60, deep ? 12 : 6);
  Step3<Sq<uint8_t, 4, 4>>::explore("u8 4,4", deep ? 18 : 15, 60, deep ? 8 : 4);
#elif PART == 3
  Step3<Sq<std::string, 2, 3>>::explore("string 2,3", deep ? 9 : 8, 60, deep ? 6 : 4);
#elif PART == 4
  Step3<Sq<uint32_t, 1, 3>>::explore("u32 1,3", deep ? 11 : 9, 60, deep ? 10 : 4);
  // one edit, and every edit of what it leaves
  std::vector<POp> big; for (uint32_t n : {127u, 128u, 129u, 257u, 6100u}) big.push_back({'N', 0, n, 0});
  Step3<Sq<uint64_t, 128, 47>>::explore("default u64", 7000, 1, 1, big, 128);
  std::vector<POp> mid; for (uint32_t n : {15u, 16u, 17u, 24u, 64u, 65u, 90u}) mid.push_back({'N', 0, n, 0});
  Step3<Sq<uint16_t, 4, 4>>::explore("tall u16 4,4", 200, deep ? 2 : 1, 1, mid, 4);
#elif PART == 5
  using S = Sq<uint32_t, 2, 3>; using Q = deque<uint32_t>; using V = vector<uint32_t>;
  Adapt<stack<uint32_t, S>, stack<uint32_t, Q>>::explore("stack", 0, deep ? 9 : 7);
  Adapt<queue<uint32_t, S>, queue<uint32_t, Q>>::explore("queue", 0, deep ? 9 : 7);
  Adapt<priority_queue<uint32_t, S>, priority_queue<uint32_t, V>>::explore("priority_queue", 0, deep ? 9 : 7);
  for (size_t k : {5, 11}) {
    static const char* nm[3][2] = {{"stack filled 5", "stack filled 11"}, {"queue filled 5", "queue filled 11"}, {"priority_queue filled 5", "priority_queue filled 11"}};
    Adapt<stack<uint32_t, S>, stack<uint32_t, Q>>::explore(nm[0][k > 5], k, deep ? 8 : 6);
    Adapt<queue<uint32_t, S>, queue<uint32_t, Q>>::explore(nm[1][k > 5], k, deep ? 8 : 6);
    Adapt<priority_queue<uint32_t, S, greater<uint32_t>>, priority_queue<uint32_t, V, greater<uint32_t>>>::explore(nm[2][k > 5], k, deep ? 8 : 6);
  }
#elif PART == 6
  Ranged<Sq<uint32_t, 2, 3>>::explore("ranges u32 2,3", deep ? 13 : 11, 12);
#elif PART == 7
  Ranged<Sq<uint32_t, 3, 3>>::explore("ranges u32 3,3", deep ? 18 : 15, 12);
#elif PART == 8
  Ranged<Sq<std::string, 2, 3>>::explore("ranges string 2,3", deep ? 11 : 9, 12);
  Ranged<Sq<uint8_t, 4, 4>>::explore("ranges u8 4,4", deep ? 18 : 14, 12);
#endif
}
}
MC_MAIN(mc::go())
