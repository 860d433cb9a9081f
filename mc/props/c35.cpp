// parts: 10
// asan: 5 10
// rule: breadth-first search over every history of edits of a sequence of sequences (edits of the outer one, of the inner ones, and those that involve two inner ones: assignment, move, swap, splice, merge, copying a range from one into another) up to the bounds of each configuration, every operation in every state compared with a list of lists, every block counted; the same for a type that holds a sequence of itself, all trees up to so many nodes, compared with a tree of lists; besides, the whole alphabet of the other properties runs with sequences as the elements
// C35: sequences nest.
#include "../suite.hpp"
#include <new>
#include <chrono>
static long g_live;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++g_live; return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --g_live; free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) --g_live; free(p); }
namespace mc {
template <class T, size_t SM, size_t BM> using Sq = typename StdCfg<T, SM, BM>::Seq;
// an element that holds a sequence: six digits, so that the order is that of the numbers; zero is the empty one
template <class S> struct Holds {
  S s;
  Holds() {}
  explicit Holds(uint32_t v) { if (v) for (int i = 5; i >= 0; --i) s.push_back(typename S::value_type(v >> (4 * i) & 15)); }
  friend bool operator==(const Holds& a, const Holds& b) { return a.s == b.s; }
  friend bool operator<(const Holds& a, const Holds& b) { return a.s < b.s; }
};
template <class S> struct El<Holds<S>> {
  static constexpr bool copyable = true, movable = true, dflt = true, cmp = true, tracked = false;
  static uint32_t get(const Holds<S>& h) { if (h.s.size() == 0) return 0; uint32_t v = 0; if (h.s.size() != 6) return 0xfffffff0u; for (auto it = h.s.begin(); it != h.s.end(); ++it) v = v * 16 + uint32_t(*it); return v; }
  static void put(Holds<S>& h, uint32_t v) { h = Holds<S>(v); }
};
using In1 = Sq<uint32_t, 2, 3>;
using In2 = Sq<uint8_t, 1, 3>;
using In3 = Sq<uint64_t, 128, 47>;
// ------------------------------------------------------------------ a list of lists
using Row = std::vector<uint32_t>; using Rows = std::vector<Row>;
struct NOp { char k; uint8_t a, b, c; };
template <class O, class I> struct Nest {
  using X = typename I::value_type;
  static uint32_t num(const X& x) { return val(x); }
  static I row(const Row& r) { I i; for (auto v : r) i.push_back(mk<X>(v)); return i; }
  template <class S> static void blocks(const S& s, std::string& k) {
    k += char('0' + s.height());
    for (auto it = s.begin(), e = s.end(); it != e; it.move_after_segment()) k += char('a' + (it.end() - it.begin()));
  }
  static std::string key(const O& o) {
    std::string k; blocks(o, k);
    for (auto& i : o) { k += '|'; blocks(i, k); for (auto& x : i) k += char('A' + num(x)); }
    return k;
  }
  template <class S, class Eq> static bool walk(S& s, size_t n, const char* what, Eq eq) {
    if (size_t(s.size()) != n) { err("contents", "%s: size() is %zu, expected %zu", what, size_t(s.size()), n); return false; }
    size_t i = 0;
    for (auto it = s.begin(), e = s.end(); it != e; ++it, ++i) if (i >= n || !eq(*it, i)) { err("contents", "%s: element %zu is wrong forwards", what, i); return false; }
    for (auto it = s.end(), b = s.begin(); it != b;) { --it; --i; if (i >= n || !eq(*it, i)) { err("contents", "%s: element %zu is wrong backwards", what, i); return false; } }
    for (i = 0; i < n; ++i) if (!eq(s[i], i)) { err("contents", "%s: element %zu is wrong by index", what, i); return false; }
    return true;
  }
  static bool judge(const O& o, const Rows& m) {
    R.checks++;
    return walk(o, m.size(), "outer sequence", [&](const I& i, size_t k) { return walk(i, m[k].size(), "inner sequence", [&](const X& x, size_t j) { return num(x) == m[k][j]; }); });
  }
  static void apply(O& o, Rows& m, NOp p, bool only_model = false) {
    size_t a = p.a, b = p.b, c = p.c;
    auto& M = m; bool x = !only_model;
    auto P = [&](size_t i) { return o.nth(i); };
    long ret = -1, want = -1;
    switch (p.k) {
      case 'i': if (x) ret = o.index_of(o.insert(P(a), I())); M.insert(M.begin() + a, Row()); want = a; break;
      case 'e': { Row r(b, uint32_t(c)); if (x) ret = o.index_of(o.emplace(P(a), b, mk<X>(uint32_t(c)))); M.insert(M.begin() + a, r); want = a; break; }
      case 'y': { Row r = M[b]; if (x) ret = o.index_of(o.insert(P(a), const_cast<const O&>(o)[b])); M.insert(M.begin() + a, r); want = a; break; }
      case 'z': { Row r = M[b]; if (x) ret = o.index_of(o.insert(P(a), 2, const_cast<const O&>(o)[b])); M.insert(M.begin() + a, 2, r); want = a; break; }
      case 'm': { Row r = std::move(M[b]); M[b].clear(); if (x) o.push_back(std::move(o[b])); M.push_back(r); break; }
      case 'n': { Row r = std::move(M[b]); M[b].clear(); if (x) ret = o.index_of(o.emplace(P(a), std::move(o[b]))); M.insert(M.begin() + a, r); want = a; break; }
      case 'd': if (x) ret = o.index_of(o.erase(P(a))); M.erase(M.begin() + a); want = a; break;
      case 'D': if (x) ret = o.index_of(o.erase(P(a), P(b))); M.erase(M.begin() + a, M.begin() + b); want = a; break;
      case 'p': if (x) o[a].push_back(mk<X>(uint32_t(b))); M[a].push_back(b); break;
      case 'f': if (x) o[a].push_front(mk<X>(uint32_t(b))); M[a].insert(M[a].begin(), b); break;
      case 'q': if (x) o[a].pop_back(); M[a].pop_back(); break;
      case 'g': if (x) o[a].erase(o[a].nth(M[a].size() / 2)); M[a].erase(M[a].begin() + M[a].size() / 2); break;
      case 'c': if (x) o[a].clear(); M[a].clear(); break;
      case '=': if (x) o[a] = const_cast<const O&>(o)[b]; { Row r = M[b]; M[a] = r; } break;
      case '<': if (x) o[a] = std::move(o[b]); { Row r = std::move(M[b]); M[b].clear(); M[a] = std::move(r); } break;
      case 's': if (x) { using std::swap; swap(o[a], o[b]); } std::swap(M[a], M[b]); break;
      case 'S': if (x) std::iter_swap(P(a), P(b)); std::swap(M[a], M[b]); break;
      case 't': { size_t h = M[a].size() / 2; if (x) o[a].splice(o[a].nth(h), o[b]); M[a].insert(M[a].begin() + h, M[b].begin(), M[b].end()); M[b].clear(); break; }
      case 'u': { size_t h = M[a].size() / 2; if (x) o[a].insert(o[a].nth(h), o[b].begin(), o[b].end()); M[a].insert(M[a].begin() + h, M[b].begin(), M[b].end()); break; }
      case 'v': { if (x) o[a].splice(o[a].end(), o[b], o[b].begin()); M[a].push_back(M[b][0]); M[b].erase(M[b].begin()); break; }
      case 'w': { if (x) o[a].assign(o[b].rbegin(), o[b].rend()); Row r(M[b].rbegin(), M[b].rend()); M[a] = r; break; }
      case 'M': { if (x) { o[a].sort(); o[b].sort(); o[a].merge(o[b]); } Row& r = M[a]; r.insert(r.end(), M[b].begin(), M[b].end()); std::stable_sort(r.begin(), r.end()); M[b].clear(); break; }
      case 'R': if (x) o.reverse(); std::reverse(M.begin(), M.end()); break;
      case 'O': if (x) o.sort(); std::stable_sort(M.begin(), M.end()); break;
      case 'U': if (x) o.unique(); M.erase(std::unique(M.begin(), M.end()), M.end()); break;
      case 'V': { Row r = M[a]; if (x) o.remove(const_cast<const O&>(o)[a]); M.erase(std::remove(M.begin(), M.end(), r), M.end()); break; }
      case 'W': if (x) o.remove_if([](const I& i) { return i.empty(); }); M.erase(std::remove_if(M.begin(), M.end(), [](const Row& r) { return r.empty(); }), M.end()); break;
      case 'A': { Row r = M[a]; if (x) { I t(o[a]); o.assign(b, t); } M.assign(b, r); break; }
      case 'Z': { Row r = M[a]; if (x) o.resize(b, const_cast<const O&>(o)[a]); M.resize(b, r); break; }
      case 'C': if (x) { O t(o); O u; u = t; t.clear(); o = std::move(u); } break;
      case 'K': if (x) { O t(std::move(o)); o.splice(o.end(), t); } break;
      case 'H': if (x) { O t; t.splice(t.end(), o, P(a), P(b)); o.splice(o.begin(), std::move(t)); } std::rotate(M.begin(), M.begin() + a, M.begin() + b); break;
      case 'I': if (x) o.insert(P(a), o[b].empty() ? I() : I(o[b].begin(), o[b].nth(o[b].size() / 2))); { Row r(M[b].begin(), M[b].begin() + M[b].size() / 2); M.insert(M.begin() + a, r); } break;
    }
    if (x && want != -1 && ret != want) err("returned", "the returned iterator has index %ld, expected %ld", ret, want);
  }
  // everything that can be done in a state
  template <class Fn> static void each(const Rows& m, size_t outer, size_t inner, size_t total, Fn fn) {
    size_t n = m.size(), sum = 0; for (auto& r : m) sum += r.size();
    auto go = [&](char k, size_t a = 0, size_t b = 0, size_t c = 0) { fn(NOp{k, uint8_t(a), uint8_t(b), uint8_t(c)}); };
    for (size_t p = 0; p <= n; ++p) {
      if (n < outer) {
        go('i', p); for (size_t k = 1; k <= inner && sum + k <= total; ++k) go('e', p, k, 1 + (p + k) % 2);
        for (size_t i = 0; i < n; ++i) { if (sum + m[i].size() <= total) go('y', p, i); go('n', p, i); if (sum + m[i].size() / 2 <= total) go('I', p, i); }
      }
      if (n + 2 <= outer) for (size_t i = 0; i < n; ++i) if (sum + 2 * m[i].size() <= total) go('z', p, i);
      for (size_t q = p; q <= n; ++q) go('D', p, q);
      for (size_t q = p + 1; q <= n; ++q) go('H', p, q);
    }
    for (size_t i = 0; i < n; ++i) {
      if (n < outer) go('m', 0, i);
      go('d', i);
      if (m[i].size() < inner && sum < total) { go('p', i, 1); go('p', i, 2); go('f', i, 2); }
      if (m[i].size()) { go('q', i); go('g', i); }
      go('c', i); go('V', i);
      for (size_t k : {size_t(0), size_t(1), n, outer}) { size_t s2 = k * m[i].size(); if (s2 <= total) go('A', i, k); if (k <= n || sum + (k - n) * m[i].size() <= total) go('Z', i, k); }
      for (size_t j = 0; j < n; ++j) {
        go('=', i, j);
        if (i == j) { go('s', i, j); continue; }
        go('<', i, j); go('s', i, j); go('S', i, j); go('w', i, j);
        if (m[i].size() + m[j].size() <= inner) { go('t', i, j); go('M', i, j); if (sum + m[j].size() <= total) go('u', i, j); }
        if (m[j].size() && m[i].size() < inner) go('v', i, j);
      }
    }
    go('R'); go('O'); go('U'); go('W'); go('C'); go('K');
  }
  static const char* name_of(char k) {
    switch (k) {
      case 'i': return "outer insert(pos, empty)"; case 'e': return "outer emplace(pos, count, value)"; case 'y': return "outer insert(pos, own element)"; case 'z': return "outer insert(pos, 2, own element)";
      case 'm': return "outer push_back(move(own element))"; case 'n': return "outer emplace(pos, move(own element))"; case 'd': return "outer erase"; case 'D': return "outer erase(first, last)";
      case 'p': return "inner push_back"; case 'f': return "inner push_front"; case 'q': return "inner pop_back"; case 'g': return "inner erase(middle)"; case 'c': return "inner clear";
      case '=': return "inner = inner"; case '<': return "inner = move(inner)"; case 's': return "swap(inner, inner)"; case 'S': return "iter_swap of inner ones"; case 't': return "inner splice(middle, inner)";
      case 'u': return "inner insert(middle, range of inner)"; case 'v': return "inner splice(end, inner, first)"; case 'w': return "inner assign(reversed inner)"; case 'M': return "inner merge(inner)";
      case 'R': return "outer reverse"; case 'O': return "outer sort"; case 'U': return "outer unique"; case 'V': return "outer remove(own element)"; case 'W': return "outer remove_if(empty)";
      case 'A': return "outer assign(count, element)"; case 'Z': return "outer resize(count, own element)"; case 'C': return "copied, cleared and moved back"; case 'K': return "moved out and spliced back"; case 'H': return "range spliced out and back in front"; default: return "outer insert(pos, part of own element)";
    }
  }
  static std::string text(const std::vector<NOp>& h) { std::string s; char b[32]; for (auto& p : h) { snprintf(b, sizeof b, "%s%c%u,%u,%u", s.empty() ? "" : " ", p.k, p.a, p.b, p.c); s += b; } return s; }
  // builds the state of a history and applies one more operation, watched
  static bool step(const std::vector<NOp>& h, const Rows& m, NOp p, std::string* k, Rows* after) {
    long before = g_live; bool ok;
    // nothing of the checker's own is held across
    {
      O* o = new O; Rows tmp;
      for (auto& q : h) apply(*o, tmp, q);
      Rows r(m);
      apply(*o, r, p);
      R.transitions++; R.progress = R.progress + 1;
      ok = !g_err.set && judge(*o, r);
      if (ok && k) { *k = key(*o); }
      delete o;
      if (after) *after = std::move(r);
    }
    long held = 0; if (after) { held += !after->empty(); for (auto& r : *after) held += !r.empty() ; }
    if (ok && !after && !k && g_live != before) err("leak", "%ld blocks are still held after destruction", g_live - before);
    return !settle();
  }
  static void explore(const char* name, size_t outer, size_t inner, size_t total, size_t depth) {
    R.cfg = name;
    auto t0 = std::chrono::steady_clock::now();
    if (!R.replay_cfg.empty()) {
      if (R.replay_cfg != name) return;
      std::vector<NOp> h; Rows m; const char* s = R.replay_hist.c_str(); int used; char k; unsigned a, b, c;
      while (sscanf(s, " %c%u,%u,%u%n", &k, &a, &b, &c, &used) == 4) {
        NOp p{k, uint8_t(a), uint8_t(b), uint8_t(c)}; R.hist = text(h); set_op(name_of(k), a, b, c);
        Rows m2(m); step(h, m, p, nullptr, nullptr); O none; apply(none, m2, p, true); m = m2; h.push_back(p); s += used;
      }
      return;
    }
    struct St { std::vector<NOp> h; Rows m; };
    std::vector<St> st; std::unordered_map<std::string, int> seen;
    st.push_back({}); seen.emplace(key(O()), 0);
    for (size_t i = 0; i < st.size(); ++i) {
      R.states++; R.cfg_states[name]++;
      St s = st[i];
      R.hist = text(s.h);
      each(s.m, outer, inner, total, [&](NOp p) {
        std::vector<NOp> h2; 
        set_op(name_of(p.k), p.a, p.b, p.c); R.hist = text(s.h);
        if (!step(s.h, s.m, p, nullptr, nullptr)) return;
        if (s.h.size() >= depth) return;
        std::string k; Rows after; 
        { O* o = new O; Rows tmp; for (auto& q : s.h) apply(*o, tmp, q); after = s.m; apply(*o, after, p); k = key(*o); delete o; }
        if (seen.emplace(std::move(k), 0).second) { h2 = s.h; h2.push_back(p); st.push_back({h2, after}); }
      });
      R.counts["edges"] = R.transitions;
    }
    R.counts["replays"] += R.cfg_states[name];
    R.counts[std::string("ms ") + name] += uint64_t(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count());
  }
};
// ------------------------------------------------------------------ a type that holds a sequence of itself
template <size_t ST, size_t BT> struct Tree {
  uint32_t v = 0;
  boost::segmented_tree::seq<Tree, std::allocator<Tree>, ST, BT> kids;
  Tree() {}
  explicit Tree(uint32_t x) : v(x) {}
  friend bool operator==(const Tree& a, const Tree& b) { return a.v == b.v && a.kids == b.kids; }
  friend bool operator<(const Tree& a, const Tree& b) { return a.v != b.v ? a.v < b.v : a.kids < b.kids; }
};
struct Leaf { uint32_t v = 0; std::vector<Leaf> kids;
  Leaf() {} explicit Leaf(uint32_t x) : v(x) {}
  friend bool operator==(const Leaf& a, const Leaf& b) { return a.v == b.v && a.kids == b.kids; }
  friend bool operator<(const Leaf& a, const Leaf& b) { return a.v != b.v ? a.v < b.v : a.kids < b.kids; } };
template <size_t ST, size_t BT> struct Grow {
  using T = Tree<ST, BT>;
  static size_t count(const Leaf& m) { size_t n = 1; for (auto& k : m.kids) n += count(k); return n; }
  // the node number i, counted from the root, a parent before its children
  static Leaf* node(Leaf& m, size_t& i) { if (i == 0) return &m; --i; for (auto& k : m.kids) if (Leaf* r = node(k, i)) return r; return nullptr; }
  static T* node(T& m, size_t& i) { if (i == 0) return &m; --i; for (auto& k : m.kids) if (T* r = node(k, i)) return r; return nullptr; }
  static T& at(T& m, size_t i) { return *node(m, i); }
  static Leaf& at(Leaf& m, size_t i) { return *node(m, i); }
  static void key(const T& t, std::string& k) {
    k += char('A' + t.v); k += '('; k += char('0' + t.kids.height());
    for (auto it = t.kids.begin(), e = t.kids.end(); it != e; it.move_after_segment()) k += char('a' + (it.end() - it.begin()));
    for (auto& c : t.kids) key(c, k);
    k += ')';
  }
  static bool judge(T& t, const Leaf& m) {
    if (t.v != m.v) { err("contents", "a node has the wrong value"); return false; }
    size_t n = m.kids.size(), i = 0;
    if (size_t(t.kids.size()) != n) { err("contents", "a node has %zu children, expected %zu", size_t(t.kids.size()), n); return false; }
    for (auto it = t.kids.begin(); it != t.kids.end(); ++it, ++i) if (i >= n || !judge(*it, m.kids[i])) { if (!g_err.set) err("contents", "a node has too many children"); return false; }
    for (auto it = t.kids.end(); it != t.kids.begin();) { --it; --i; if (&*it != &t.kids[i] || it->v != m.kids[i].v) { err("contents", "a child is wrong backwards"); return false; } }
    return true;
  }
  static long apply(T& t, Leaf& m, NOp p) {
    size_t a = p.a, b = p.b, c = p.c;
    Leaf& M = at(m, a); T& X = at(t, a); const Leaf& N = at(m, b); const T& cY = at(t, b); T& Y = at(t, b);
    long ret = -1, want = -1; auto& K = X.kids; auto& L = M.kids;
    switch (p.k) {
      case 'p': ret = K.index_of(K.emplace(K.nth(b), uint32_t(c))); L.insert(L.begin() + b, Leaf(uint32_t(c))); want = long(b); break;
      case 'e': ret = K.index_of(K.erase(K.nth(b))); L.erase(L.begin() + b); want = long(b); break;
      case 'E': ret = K.index_of(K.erase(K.nth(b), K.nth(c))); L.erase(L.begin() + b, L.begin() + c); want = long(b); break;
      case 'c': K.clear(); L.clear(); break;
      case 'y': { Leaf r = N; ret = K.index_of(K.insert(K.nth(c), cY)); L.insert(L.begin() + c, r); want = long(c); break; }
      case 'Y': { Leaf r = N; K.push_back(cY); L.push_back(r); break; }
      case 'z': { Leaf r = N; ret = K.index_of(K.insert(K.nth(c), 2, cY)); L.insert(L.begin() + c, 2, r); want = long(c); break; }
      case 'r': { Leaf r = N; K.resize(c, cY); L.resize(c, r); break; }
      case 'm': { Leaf r = N; at(m, b).kids.clear(); ret = K.index_of(K.insert(K.nth(c), std::move(Y))); L.insert(L.begin() + c, r); want = long(c); break; }
      case 's': K.swap(Y.kids); L.swap(at(m, b).kids); break;
      case 'S': std::swap(X, Y); std::swap(M, at(m, b)); break;
      case '=': X = cY; if (a != b) M = N; break;
      case '<': { Leaf r = N; at(m, b).kids.clear(); X = std::move(Y); M = r; break; }
      case 't': { size_t h = L.size() / 2; Leaf r = N; at(m, b).kids.clear(); K.splice(K.nth(h), Y.kids); L.insert(L.begin() + h, r.kids.begin(), r.kids.end()); break; }
      case 'u': { size_t h = L.size() / 2; Leaf r = N; K.insert(K.nth(h), cY.kids.begin(), cY.kids.end()); L.insert(L.begin() + h, r.kids.begin(), r.kids.end()); break; }
      case 'v': { auto& B = at(m, b).kids; K.splice(K.nth(c), Y.kids, Y.kids.begin()); Leaf r = B.front(); B.erase(B.begin()); L.insert(L.begin() + c, r); break; }
      case 'h': { T s(std::move(Y)); X = std::move(s); Leaf r = N; M = r; break; }
      case 'H': { T s(cY); X = s; Leaf r = N; M = r; break; }
      case 'o': K.sort(); std::stable_sort(L.begin(), L.end()); break;
      case 'R': K.reverse(); std::reverse(L.begin(), L.end()); break;
      case 'U': K.unique(); L.erase(std::unique(L.begin(), L.end()), L.end()); break;
      case 'V': { Leaf r = N; K.remove(cY); L.erase(std::remove(L.begin(), L.end(), r), L.end()); break; }
      case 'W': K.remove_if([](const T& k) { return k.kids.empty(); }); L.erase(std::remove_if(L.begin(), L.end(), [](const Leaf& k) { return k.kids.empty(); }), L.end()); break;
      case 'M': { T s; for (auto& k : cY.kids) s.kids.push_back(k); s.kids.sort(); K.sort(); K.merge(s.kids); Leaf r = N; std::stable_sort(r.kids.begin(), r.kids.end()); std::stable_sort(L.begin(), L.end()); size_t n = L.size(); L.insert(L.end(), r.kids.begin(), r.kids.end()); std::inplace_merge(L.begin(), L.begin() + n, L.end()); break; }
      case 'C': { T s(t); if (!(s == t)) err("contents", "a copy is not equal"); T u; u = s; s.kids.clear(); t = std::move(u); break; }
      case 'q': if ((X == cY) != (M == N) || (X < cY) != (M < N)) err("compare", "two nodes compare wrongly"); break;
    }
    if (want != ret) err("returned", "the returned iterator has index %ld, expected %ld", ret, want);
    return 0;
  }
  template <class Fn> static void each(Leaf& m, size_t most, Fn fn) {
    size_t n = count(m);
    auto go = [&](char k, size_t a = 0, size_t b = 0, size_t c = 0) { fn(NOp{k, uint8_t(a), uint8_t(b), uint8_t(c)}); };
    for (size_t x = 0; x < n; ++x) {
      Leaf& X = at(m, x); size_t w = X.kids.size(), sx = count(X);
      for (size_t p = 0; p <= w; ++p) {
        if (n < most) { go('p', x, p, 1); go('p', x, p, 2); }
        if (p < w) go('e', x, p);
        for (size_t q = p + 2; q <= w; ++q) go('E', x, p, q);
      }
      if (w) go('c', x);
      if (w > 1) { go('o', x); go('R', x); go('U', x); }
      if (w) go('W', x);
      for (size_t y = 0; y < n; ++y) {
        Leaf& Y = at(m, y); size_t sy = count(Y);
        bool above = x >= y && x < y + sy;      // y is x, or above x
        bool below = y > x && y < x + sx;       // y is below x
        for (size_t p = 0; p <= w; ++p) {
          if (n + sy <= most) go('y', x, y, p);
          if (n + 2 * sy <= most) go('z', x, y, p);
          if (!above && n < most) go('m', x, y, p);
          if (!above && !below && Y.kids.size()) go('v', x, y, p);
        }
        for (size_t k : {w / 2, w + 1, w + 2}) { size_t keep = 0; for (size_t i = 0; i < k && i < w; ++i) keep += count(X.kids[i]); if (n - (sx - 1) + keep + (k > w ? k - w : 0) * sy <= most) go('r', x, y, k); }
        if (n + sy <= most) go('Y', x, y);
        go('V', x, y); go('q', x, y);
        if (x == y) go('=', x, y);
        if (below) { go('h', x, y); go('H', x, y); }
        if (n + sy - 1 <= most) go('M', x, y);
        if (above || below) continue;
        go('s', x, y); go('S', x, y); go('<', x, y); go('t', x, y);
        if (n - sx + sy <= most) go('=', x, y);
        if (n + sy - 1 <= most) go('u', x, y);
      }
    }
    go('C');
  }
  static const char* name_of(char k) {
    switch (k) {
      case 'p': return "emplace child"; case 'e': return "erase child"; case 'E': return "erase children"; case 'c': return "clear children"; case 'y': return "insert copy of node"; case 'Y': return "push_back copy of node";
      case 'z': return "insert(pos, 2, node)"; case 'r': return "resize(count, node)"; case 'm': return "insert(move(node))"; case 's': return "swap children"; case 'S': return "swap nodes"; case '=': return "node = node";
      case '<': return "node = move(node)"; case 't': return "splice children"; case 'u': return "insert range of children"; case 'v': return "splice one child"; case 'h': return "replaced by moved descendant"; case 'H': return "replaced by copied descendant";
      case 'o': return "sort"; case 'R': return "reverse"; case 'U': return "unique"; case 'V': return "remove(node)"; case 'W': return "remove_if(no children)"; case 'M': return "merge copies"; case 'C': return "copied and moved back"; default: return "compare nodes";
    }
  }
  static std::string text(const std::vector<NOp>& h) { return Nest<Sq<In1, 2, 3>, In1>::text(h); }
  static bool step(const std::vector<NOp>& h, NOp p, std::string* k) {
    long before = g_live; bool ok;
    {
      T* t = new T; Leaf m;
      for (auto& q : h) apply(*t, m, q);
      if (p.k) { apply(*t, m, p); R.transitions++; R.progress = R.progress + 1; R.checks++; }
      ok = !g_err.set && judge(*t, m);
      if (ok && k) key(*t, *k);
      delete t;
    }
    if (ok && !k && g_live != before) err("leak", "%ld blocks are still held after destruction", g_live - before);
    return !settle();
  }
  static void explore(const char* name, size_t most, size_t depth) {
    R.cfg = name;
    if (!R.replay_cfg.empty()) {
      if (R.replay_cfg != name) return;
      std::vector<NOp> h; const char* s = R.replay_hist.c_str(); int used; char k; unsigned a, b, c;
      while (sscanf(s, " %c%u,%u,%u%n", &k, &a, &b, &c, &used) == 4) { NOp p{k, uint8_t(a), uint8_t(b), uint8_t(c)}; R.hist = text(h); set_op(name_of(k), a, b, c); step(h, p, nullptr); h.push_back(p); s += used; }
      return;
    }
    std::vector<std::vector<NOp>> st; std::unordered_map<std::string, int> seen;
    st.push_back({}); seen.emplace("", 0);
    for (size_t i = 0; i < st.size(); ++i) {
      R.states++; R.cfg_states[name]++;
      std::vector<NOp> h = st[i]; Leaf m; { T t; for (auto& q : h) apply(t, m, q); }
      R.hist = text(h);
      each(m, most, [&](NOp p) {
        set_op(name_of(p.k), p.a, p.b, p.c); R.hist = text(h);
        if (!step(h, p, nullptr)) return;
        if (h.size() >= depth) return;
        std::vector<NOp> h2(h); h2.push_back(p);
        std::string k; step(h2, NOp{0, 0, 0, 0}, &k);
        if (seen.emplace(std::move(k), 0).second) st.push_back(h2);
      });
      R.counts["edges"] = R.transitions;
    }
    R.counts["replays"] += R.cfg_states[name];
  }
};
template <class C> struct VA {
  static constexpr int less = 0;
  static void visit(State<C>& s) { all_ops<C>(s, [&](const Op<typename C::Seq>& o) { run_plain<C>(s, o); }); }
};
}
using namespace mc;
template <class C> using V = VA<C>;
void go() {
  bool t = R.thorough();
#if PART == 1
  Nest<Sq<In1, 2, 3>, In1>::explore("lists of lists 2,3 of 2,3", 4, 4, 6, t ? 6 : 5);
#elif PART == 2
  Nest<Sq<In2, 1, 3>, In2>::explore("lists of lists 1,3 of 1,3", 5, 3, 6, t ? 6 : 4);
#elif PART == 3
  using W = Sq<uint16_t, 3, 3>;
  Nest<Sq<W, 3, 3>, W>::explore("lists of lists 3,3 of 3,3", 5, 5, 7, t ? 6 : 4);
#elif PART == 4
  using W = Sq<std::string, 2, 3>;
  Nest<Sq<W, 2, 3>, W>::explore("lists of lists of strings 2,3 of 2,3", 4, 4, 6, t ? 5 : 4);
#elif PART == 5
  Nest<Sq<In1, 1, 3>, In1>::explore("lists of lists 1,3 of 2,3, watched", 4, 4, 5, t ? 4 : 3);
#elif PART == 6
  BFS("sequences as elements 2,3 of 2,3", 10, 12, StdCfg<Holds<In1>, 2, 3>);
#elif PART == 7
  BFS("sequences as elements 3,3 of 1,3", 13, 15, StdCfg<Holds<In2>, 3, 3>);
#elif PART == 8
  FROM("sequences as elements, default targets", fills({42, 43, 90, 200}, t), 0, 0, StdCfg<Holds<In3>, 1024 / sizeof(In3), 47, 1024, 768>);
#elif PART == 9
  static_assert(sizeof(Tree<0, 0>) == 32, "");
  Grow<64, 96>::explore("trees 2,3", t ? 6 : 5, 20);
  Grow<96, 96>::explore("trees 3,3", t ? 6 : 5, 20);
#elif PART == 10
  Grow<32, 96>::explore("trees 1,3, watched", t ? 5 : 4, 20);
#endif
}
MC_MAIN(go())
