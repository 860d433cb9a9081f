// parts: 10
// build 9: g++ -std=c++17 -O2
// build 10: g++ -std=c++17 -O2
// rule: in every state, every pair of positions: jumps with every operator, steps, distances and six comparisons, for mutable, const and reverse iterators, compared with integers; the same for a sequence of more than 2^32 elements (of a type without contents, in blocks that are never touched, and all in one block), at every pair of positions around block borders and powers of two, before and after edits at each of them
// C04: iterator arithmetic agrees with integer positions.
#include "../iters.hpp"
using namespace mc;
template <class C> struct V {
  static constexpr int less = 1;
  using S = typename C::Seq; using T = typename C::T;
  static bool bad(const char* what, const char* kind, size_t i, size_t j) { err("iterator", "%s: %s iterator, from %zu to %zu", what, kind, i, j); return false; }
  template <class It, class At> static bool pair(const char* kind, It a, It b, size_t i, size_t j, size_t n, At at) {
    ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(i);
    R.transitions++;
    auto here = [&](const It& x) { return x == b && !(x != b) && (j == n || std::addressof(*x) == at(j)); };
    if (!here(a + d)) return bad("a + d", kind, i, j);
    if (!here(d + a)) return bad("d + a", kind, i, j);
    if (!here(a - (-d))) return bad("a - d", kind, i, j);
    It x = a; It& rx = (x += d); if (!here(x) || &rx != &x) return bad("a += d", kind, i, j);
    It y = a; It& ry = (y -= -d); if (!here(y) || &ry != &y) return bad("a -= d", kind, i, j);
    if (j < n && std::addressof(a[d]) != at(j)) return bad("a[d]", kind, i, j);
    if (b - a != d || a - b != -d) return bad("distance", kind, i, j);
    if ((a == b) != (i == j) || (a != b) != (i != j)) return bad("== or !=", kind, i, j);
    if ((a < b) != (i < j) || (a > b) != (i > j) || (a <= b) != (i <= j) || (a >= b) != (i >= j)) return bad("order comparison", kind, i, j);
    // round trip: back from where the jump led
    It z = (a + d) - d; if (!(z == a) || (i < n && std::addressof(*z) != at(i))) return bad("there and back", kind, i, j);
    return true;
  }
  template <class It, class At> static bool steps(const char* kind, It a, size_t i, size_t n, It b, It e, At at, size_t most) {
    It x = a; size_t k = i;
    for (; k < n && k - i < most; ++k) {
      if (std::addressof(*x) != at(k)) return bad("stepping forward", kind, i, k);
      It y = x; It old = y++; if (old != x || (k < n && std::addressof(*old) != at(k))) return bad("post ++", kind, i, k);
      It& r = ++x; if (&r != &x || !(x == y) || x - a != ptrdiff_t(k + 1 - i)) return bad("++", kind, i, k);
    }
    if (k == n && !(x == e)) return bad("stepping to the end", kind, i, n);
    for (; k > i; --k) {
      It y = x; It old = y--; if (!(old == x)) return bad("post --", kind, i, k);
      It& r = --x; if (&r != &x || !(x == y) || std::addressof(*x) != at(k - 1) || std::addressof(*y) != at(k - 1)) return bad("--", kind, i, k);
    }
    if (!(x == a)) return bad("stepping back", kind, i, k);
    for (; k > 0 && i - k < most; --k) { --x; if (std::addressof(*x) != at(k - 1)) return bad("stepping back", kind, i, k - 1); }
    if (k == 0 && !(x == b)) return bad("stepping to begin()", kind, i, 0);
    return true;
  }
  // value-initialised iterators are equal, whatever the memory held before
  template <class It> static void fresh_ones(const char* kind) {
    alignas(It) unsigned char a[sizeof(It)], b[sizeof(It)];
    memset(a, 0xff, sizeof a); memset(b, 0x5a, sizeof b);
    asm volatile("" : : "r"(a), "r"(b) : "memory");
    It* x = ::new (static_cast<void*>(a)) It(); It* y = ::new (static_cast<void*>(b)) It();
    if (!(*x == *y) || *x != *y || *x < *y || *x > *y || !(*x <= *y) || *x - *y != 0) err("iterator", "value-initialised %s iterators are not equal", kind);
    x->~It(); y->~It();
  }
  // with the mutable one on the left (where that compiles; C37 says that it does)
  template <class A, class B> static auto left(const A& a, const B& b, size_t i, size_t j, int) -> decltype(a == b && a - b) {
    return (a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j) && a - b == ptrdiff_t(i) - ptrdiff_t(j);
  }
  template <class A, class B> static bool left(const A&, const B&, size_t, size_t, long) { return true; }
  static void visit(State<C>& s) {
    S& c = s.fresh(); const S& k = c;
    size_t n = s.n;
    std::vector<T*> addr; { size_t i = 0; for (auto it = c.begin(); it != c.end() && i < n; ++it, ++i) addr.push_back(std::addressof(*it)); }
    if (addr.size() != n) { err("iterator", "stepping through meets %zu of %zu elements", addr.size(), n); settle(); return; }
    for (size_t i = 0; i < n; ++i) if (val(*addr[i]) != fold<T>(s.model[i])) { set_op("step", i); err("iterator", "stepping forward meets another element at %zu", i); settle(); return; }
    auto at = [&](size_t i) { return addr[i]; };
    auto rat = [&](size_t i) { return addr[n - 1 - i]; };
    using It = typename S::iterator; using Ct = typename S::const_iterator; using Rt = typename S::reverse_iterator; using Cr = typename S::const_reverse_iterator;
    for (size_t i : few_positions(n + 1, C::segmax, 40)) {
      set_op("from", i);
      size_t most = n > 200 ? 2 * C::segmax + 3 : n + 1;
      if (most > 3000) most = 300;
      steps<It>("mutable", c.nth(i), i, n, c.begin(), c.end(), at, most) && steps<Ct>("const", k.nth(i), i, n, k.begin(), k.end(), at, most);
      if (n <= 160) { steps<Rt>("reverse", c.rbegin() + i, i, n, c.rbegin(), c.rend(), rat, most) && steps<Cr>("const reverse", k.rbegin() + i, i, n, k.crbegin(), k.crend(), rat, most); }
      if (settle()) return;
      auto ts = n > 160 ? few_positions(n + 1, C::segmax, 60) : positions(n + 1, C::segmax);
      if (n > 160) for (long d = -long(C::segmax) - 2; d <= long(C::segmax) + 2; d += (C::segmax > 200 ? long(C::segmax) / 50 : 1)) { long t = long(i) + d; if (t >= 0 && t <= long(n)) ts.push_back(uint32_t(t)); }
      for (size_t j : ts) {
        set_op("pair", i, j);
        // iterators for j found afresh, for i reached by stepping or jumping from begin and from end
        pair<It>("mutable", c.nth(i), c.nth(j), i, j, n, at) && pair<Ct>("const", k.nth(i), k.nth(j), i, j, n, at);
        pair<It>("mutable from begin", c.begin() + i, c.end() - (n - j), i, j, n, at);
        pair<It>("mutable from end", c.end() - (n - i), c.begin() + j, i, j, n, at);
        if (n <= 60) { pair<Rt>("reverse", c.rbegin() + i, c.rend() - (n - j), i, j, n, rat) && pair<Cr>("const reverse", k.crbegin() + i, k.crend() - (n - j), i, j, n, rat); }
        Ct conv = c.nth(i); Ct cj = k.nth(j);
        if (conv - cj != ptrdiff_t(i) - ptrdiff_t(j) || (conv == cj) != (i == j) || (conv < cj) != (i < j)) bad("converted iterator", "const", i, j);
        Ct asg; asg = c.nth(j); if (!(asg == cj) || (j < n && std::addressof(*asg) != at(j))) bad("assigned iterator", "const", i, j);
        It mi = c.nth(i);
        if (!left(mi, cj, i, j, 0)) bad("comparison with a const one", "mutable", i, j);
        if ((cj == mi) != (i == j) || (cj != mi) == (i == j) || (cj < mi) != (j < i) || (cj > mi) != (j > i) || (cj <= mi) != (j <= i) || (cj >= mi) != (j >= i) || cj - mi != ptrdiff_t(j) - ptrdiff_t(i)) bad("const against mutable iterator", "const", j, i);
        if (n <= 24) { It s1 = c.nth(i), s2 = c.nth(j); using std::swap; swap(s1, s2);
        if (s1 - s2 != ptrdiff_t(j) - ptrdiff_t(i) || (j < n && std::addressof(*s1) != at(j)) || (i < n && std::addressof(*s2) != at(i))) bad("swapped iterators", "mutable", i, j); }
        if (settle()) return;
      }
    }
    if (n <= 2) { set_op("value-initialised"); fresh_ones<It>("mutable"); fresh_ones<Ct>("const"); fresh_ones<Rt>("reverse"); fresh_ones<Cr>("const reverse"); if (settle()) return; }
    R.checks++;
  }
};
#if PART >= 9
// ------------------------------------------------------------------ positions beyond 32 bits
#include <sys/mman.h>
struct Nil { Nil() {} Nil(const Nil&) {} Nil& operator=(const Nil&) { return *this; } ~Nil() {} };
template <class T> struct Untouched {
  using value_type = T; Untouched() = default; template <class U> Untouched(const Untouched<U>&) {}
  T* allocate(size_t n) { void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw std::bad_alloc(); return static_cast<T*>(p); }
  void deallocate(T* p, size_t n) { munmap(p, n * sizeof(T)); }
  friend bool operator==(const Untouched&, const Untouched&) { return true; } friend bool operator!=(const Untouched&, const Untouched&) { return false; }
};
template <int X, size_t B> struct HugeCfg { using T = Nil; using Seq = boost::segmented_tree::seq<Nil, Untouched<Nil>, size_t(1) << X, B>; static constexpr size_t segmax = size_t(1) << X; };
template <> struct mc::El<Nil> { static constexpr bool copyable = true, movable = true, dflt = true, cmp = false, tracked = false; static uint32_t get(const Nil&) { return 0; } static void put(Nil&, uint32_t) {} };
template <class HC> struct Huge {
  using S = typename HC::Seq; using It = typename S::iterator; using Ct = typename S::const_iterator; using Rt = typename S::reverse_iterator;
  struct Block { size_t start, size; Nil* base; };
  static std::vector<Block> blocks(S& c) { std::vector<Block> b; size_t at = 0; for (auto it = c.begin(), e = c.end(); it != e; it.move_after_segment()) { size_t k = size_t(it.end() - it.begin()); b.push_back({at, k, std::addressof(*it)}); at += k; } return b; }
  static bool judge(S& c, size_t n, bool every) {
    auto bs = blocks(c); size_t sum = 0; for (auto& b : bs) sum += b.size;
    R.checks++;
    if (c.size() != n || sum != n) { err("iterator", "size() is %zu, the blocks hold %zu, expected %zu", size_t(c.size()), sum, n); return false; }
    auto at = [&](size_t i) { size_t k = size_t(std::upper_bound(bs.begin(), bs.end(), i, [](size_t x, const Block& b) { return x < b.start; }) - bs.begin()) - 1; return bs[k].base + (i - bs[k].start); };
    auto rat = [&](size_t i) { return at(n - 1 - i); };
    std::vector<size_t> ps{0, 1, n - 1, n}; for (int k : {15, 16, 31, 32}) for (int d = -1; d <= 1; ++d) ps.push_back((size_t(1) << k) + d);
    const std::vector<size_t> key = ps; size_t nth_block = 0;
    for (auto& b : bs) { if (!every && bs.size() > 50 && nth_block++ % 8) continue; ps.push_back(b.start); if (b.start) ps.push_back(b.start - 1); if (every) ps.push_back(b.start + b.size / 2); }
    std::sort(ps.begin(), ps.end()); ps.erase(std::unique(ps.begin(), ps.end()), ps.end()); while (ps.back() > n) ps.pop_back();
    const S& k = c; using VV = V<HC>;
    for (size_t i : ps) {
      if (c.index_of(c.nth(i)) != i || c.index_of(k.nth(i)) != i) { err("iterator", "nth(%zu) has index %zu", i, size_t(c.index_of(c.nth(i)))); return false; }
      if (i < n && (std::addressof(c[i]) != at(i) || std::addressof(k.at(i)) != at(i))) { err("iterator", "element %zu is found elsewhere", i); return false; }
      for (size_t j : ps) {
        R.progress = R.progress + 1;
        if (bs.size() > 50 && std::find(key.begin(), key.end(), i) == key.end() && std::find(key.begin(), key.end(), j) == key.end()) continue;
        if (!every && i != n / 2 && j != n / 2 && (i ^ j) % 3) continue;
        if (!(VV::template pair<It>("mutable", c.nth(i), c.nth(j), i, j, n, at) && VV::template pair<Ct>("const", k.nth(i), k.nth(j), i, j, n, at) && VV::template pair<It>("mutable from begin", c.begin() + ptrdiff_t(i), c.end() - ptrdiff_t(n - j), i, j, n, at) && VV::template pair<Rt>("reverse", c.rbegin() + ptrdiff_t(i), c.rend() - ptrdiff_t(n - j), i, j, n, rat))) return false;
        It s = c.nth(i); if (i < n) { ++s; if (c.index_of(s) != i + 1) return VV::bad("++", "mutable", i, j); --s; } if (i) { --s; if (c.index_of(s) != i - 1) return VV::bad("--", "mutable", i, j); }
      }
    }
    bool threw = false; try { c.at(n); } catch (const std::out_of_range&) { threw = true; } if (!threw) { err("iterator", "at(size()) does not throw"); return false; }
    return true;
  }
  static void go(const char* name, size_t n) {
    R.cfg = name; if (!R.replay_cfg.empty() && R.replay_cfg != R.cfg) return;
    S* c = new S; set_op("filled"); R.hist = "filled";
    for (size_t i = 0; i < n; ++i) { c->push_back(Nil()); if (i % (1 << 20) == 0) R.progress = R.progress + 1; }
    R.states++; R.cfg_states[R.cfg]++;
    judge(*c, n, true); if (settle()) return;
    std::vector<size_t> ps{0, n, n - 1, (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 1}; { auto bs = blocks(*c); size_t each = bs.size() / 5 + 1; for (size_t k = 0; k < bs.size(); k += each) { ps.push_back(bs[k].start); ps.push_back(bs[k].start + bs[k].size / 2); } }
    for (size_t p : ps) {
      R.states += 2; R.cfg_states[R.cfg] += 2; R.transitions += 2;
      set_op("insert", long(p)); R.hist = "filled, insert"; auto it = c->insert(c->nth(p), Nil()); if (size_t(c->index_of(it)) != p) err("iterator", "insert returned index %zu, expected %zu", size_t(c->index_of(it)), p); else judge(*c, n + 1, false); if (settle()) return;
      set_op("erase", long(p)); R.hist = "filled, insert, erase"; it = c->erase(c->nth(p)); if (size_t(c->index_of(it)) != p) err("iterator", "erase returned index %zu, expected %zu", size_t(c->index_of(it)), p); else judge(*c, n, false); if (settle()) return;
    }
    set_op("erase(first, last)"); R.hist = "filled, erased range"; auto it = c->erase(c->nth((size_t(1) << 32) - 4), c->nth((size_t(1) << 32) + 4)); if (size_t(c->index_of(it)) != (size_t(1) << 32) - 4) err("iterator", "erase returned index %zu", size_t(c->index_of(it))); else judge(*c, n - 8, true); if (settle()) return;
    set_op("resize"); R.hist = "filled, resized"; c->resize(n + 3); judge(*c, n + 3, true); if (settle()) return;
    set_op("moved, swapped"); S d(std::move(*c)); S e; e.swap(d); *c = std::move(e); judge(*c, n + 3, false); if (settle()) return;
    R.counts["edges"] = R.transitions; R.counts["replays"]++;
  }
};
#if PART == 9
MC_MAIN((Huge<HugeCfg<24, 768>>::go("beyond 2^32", (size_t(1) << 32) + (size_t(1) << 29) + 7)))
#else
MC_MAIN((Huge<HugeCfg<33, 80>>::go("one block beyond 2^32", (size_t(1) << 32) + 7)))
#endif
#else
MC_MAIN(suite<V>())
#endif
