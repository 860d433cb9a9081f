// Breadth-first exploration of every tree shape the real container can reach.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <boost/segmented_tree/seq.hpp>
#include <algorithm>
#include <unordered_map>
#include "elem.hpp"

namespace mc {
using Vec = std::vector<uint32_t>;

template <class T_, size_t SegMax, size_t BaseMax, int P = 0, size_t SegTarget = SegMax * sizeof(T_),
          size_t BaseTarget = (BaseMax <= 3 ? 0 : 16 + 16 * BaseMax)>
struct Cfg {
  using T = T_;
  using A = Alloc<T, T, Pol<P>>;
  using Seq = boost::segmented_tree::seq<T, A, SegTarget, BaseTarget>;
  static constexpr size_t segmax = SegMax, basemax = BaseMax, segtarget = SegTarget, basetarget = BaseTarget;
  static constexpr size_t segmin = (SegMax + 1) / 2, basemin = (BaseMax + 1) / 2;
  static_assert(P < 1024 && (SegTarget / sizeof(T_) > 1 ? SegTarget / sizeof(T_) : 1) == SegMax, "segment capacity");
  static_assert((BaseTarget < 16 ? 0 : (BaseTarget - 16) / 16) == BaseMax || (BaseMax == 3 && BaseTarget < 80), "node capacity");
  static constexpr int pol = P;
  static constexpr bool rebuild = false;
};
// The default allocator: storage outside the arena, so states are rebuilt by replay.
template <class T_, size_t SegMax, size_t BaseMax, size_t SegTarget = SegMax * sizeof(T_), size_t BaseTarget = (BaseMax <= 3 ? 0 : 16 + 16 * BaseMax)>
struct StdCfg {
  using T = T_;
  using A = std::allocator<T>;
  using Seq = boost::segmented_tree::seq<T, A, SegTarget, BaseTarget>;
  static constexpr size_t segmax = SegMax, basemax = BaseMax, segtarget = SegTarget, basetarget = BaseTarget;
  static constexpr size_t segmin = (SegMax + 1) / 2, basemin = (BaseMax + 1) / 2;
  static constexpr int pol = 0;
  static constexpr bool rebuild = true;
};

// ------------------------------------------------------------- state keys
template <class S> struct has_hook {
  struct F { void operator()(uint64_t) {} };
  template <class U> static auto t(const U* u) -> decltype(u->verify_shape(std::declval<F&>()), std::true_type{});
  template <class> static std::false_type t(...);
  static constexpr bool value = decltype(t<S>(nullptr))::value;
};
inline void put_num(std::string& k, uint64_t v) {
  while (v >= 128) { k += char(0x80 | (v & 127)); v >>= 7; }
  k += char(v);
}
// Without the hook: block lengths and height as the public interface tells them, and which index
// node holds which blocks and nodes, from the node addresses found in iterators and nodes. (A node's
// level never changes, so the one node address in it that is not of the level below is its parent's.)
template <class S> std::string raw_key(const S& c) {
  std::unordered_map<uint64_t, int> nodes;          // address -> level, 0 when not yet known
  for_live_blocks([&](BlockHdr* h) { if (h->kind == uint32_t(kNode)) nodes[reinterpret_cast<uint64_t>(h + 1)] = 0; });
  auto found = [&](const char* p, size_t size, int below) -> uint64_t {
    for (int distance = 0; distance < 2; ++distance)
      for (size_t i = 0; i + 8 <= size; i += 8) {
        uint64_t a; memcpy(&a, p + i, 8); determinate(&a, 8);
        if (distance) a += reinterpret_cast<uint64_t>(p + i);
        auto it = nodes.find(a);
        if (it != nodes.end() && (it->second == 0 || it->second > below) && a != reinterpret_cast<uint64_t>(p)) return a;
      }
    return 0;
  };
  std::string k;
  size_t n = c.size();
  put_num(k, n); put_num(k, c.height());
  std::vector<uint64_t> level;
  for (size_t pos = 0; pos < n;) {
    auto it = c.nth(pos);
    auto len = it.end() - it.begin();
    if (len <= 0 || size_t(len) > n - pos) { k += 'X'; break; }
    put_num(k, size_t(len));
    level.push_back(nodes.empty() ? 0 : found(reinterpret_cast<const char*>(std::addressof(it)), sizeof it, 0));
    pos += size_t(len);
  }
  for (int depth = 1; depth < 70 && level.size() > 1; ++depth) {
    std::vector<uint64_t> up;
    k += '/';
    for (size_t i = 0; i < level.size();) {
      size_t j = i; while (j < level.size() && level[j] == level[i]) ++j;
      put_num(k, j - i);
      if (level[i]) { nodes[level[i]] = depth; up.push_back(level[i]); }
      i = j;
    }
    for (auto& a : up) a = found(reinterpret_cast<const char*>(a), (reinterpret_cast<BlockHdr*>(a) - 1)->size, depth);
    if (std::all_of(up.begin(), up.end(), [](uint64_t a) { return a == 0; })) break;
    level = std::move(up);
  }
  return k;
}
template <class S> std::string state_key(const S& c) {
  std::string k;
  if constexpr (has_hook<S>::value) {
    auto f = [&](uint64_t v) { put_num(k, v); };
    c.verify_shape(f);
    // Whatever else the object holds (nothing today): words that are not block addresses.
    for (size_t i = 0; i + 8 <= sizeof(S); i += 8) {
      uint64_t w; memcpy(&w, reinterpret_cast<const char*>(std::addressof(c)) + i, 8); determinate(&w, 8);
      bool counts = std::is_pointer<typename S::pointer>::value ? w >> 32 == 0 : w <= 16 || w == c.size();
      put_num(k, counts ? w : 7777);            // neither addresses nor distances count
    }
  } else
    k = raw_key(c);
  return k;
}

// ------------------------------------------------------------- edits that build states
// I p: insert at p   E p: erase p   B n: n push_backs   F n: n push_fronts   M n: n inserts in the middle
// X a b: erase the range [a,b)   N p k: insert k copies at p   A n: assign n values   Z n: resize to n
// S p k: splice in a sequence of k elements at p   T a b: splice the range [a,b) out   G k: merge with k elements
// Y: replace by a copy   V: move out and back   W: swap out and back
struct BOp { char k; uint32_t a, b; };
template <class C> struct Builder {
  using S = typename C::Seq; using T = typename C::T;
  static void apply(S& c, BOp o, uint32_t v = 7) {
    switch (o.k) {
      case 'I': c.insert(c.nth(o.a), mk<T>(v)); break;
      case 'E': c.erase(c.nth(o.a)); break;
      case 'B': for (uint32_t i = 0; i < o.a; ++i) c.push_back(mk<T>(v)); break;
      case 'F': for (uint32_t i = 0; i < o.a; ++i) c.push_front(mk<T>(v)); break;
      case 'M': for (uint32_t i = 0; i < o.a; ++i) c.insert(c.nth(c.size() / 2), mk<T>(v)); break;
      case 'X': c.erase(c.nth(o.a), c.nth(o.b)); break;
      default: bulk(c, o, v);
    }
  }
  static S& spare(S& c) { return *new (W().slot[3]) S(c.get_allocator()); }
  static void bulk(S& c, BOp o, uint32_t v) {
    constexpr bool cp = El<T>::copyable;
    switch (o.k) {
      case 'N': if constexpr (cp) { T x = mk<T>(v); c.insert(c.nth(o.a), o.b, x); } else for (uint32_t i = 0; i < o.b; ++i) c.insert(c.nth(o.a), mk<T>(v)); break;
      case 'A': if constexpr (cp) { T x = mk<T>(v); c.assign(o.a, x); } break;
      case 'Z': if constexpr (cp) { T x = mk<T>(v); c.resize(o.a, x); } break;
      case 'S': { S& d = spare(c); for (uint32_t i = 0; i < o.b; ++i) d.push_back(mk<T>(v)); c.splice(c.nth(o.a), d); d.~S(); break; }
      case 'T': { S& d = spare(c); d.push_back(mk<T>(v)); d.splice(d.end(), c, c.nth(o.a), c.nth(o.b)); d.~S(); break; }
      case 'G': { S& d = spare(c); for (uint32_t i = 0; i < o.a; ++i) d.push_back(mk<T>(v)); c.merge(d, [](const T&, const T&) { return false; }); d.~S(); break; }
      case 'Y': if constexpr (cp) { S& d = *new (W().slot[3]) S(const_cast<const S&>(c)); c = const_cast<const S&>(d); d.clear(); c.swap(d); c = const_cast<const S&>(d); d.~S(); } break;
      case 'V': { S& d = *new (W().slot[3]) S(std::move(c)); c.push_back(mk<T>(v)); c = std::move(d); d.~S(); break; }
      case 'W': { S& d = spare(c); d.push_back(mk<T>(v)); swap(c, d); c.pop_back(); c.swap(d); d.~S(); break; }
    }
  }
};
inline std::string bop_text(BOp o) {
  char b[48];
  if (strchr("XNST", o.k)) snprintf(b, sizeof b, "%c%u,%u", o.k, o.a, o.b); else snprintf(b, sizeof b, "%c%u", o.k, o.a);
  return b;
}
inline std::vector<BOp> parse_hist(const std::string& h) {
  std::vector<BOp> r;
  for (size_t i = 0; i < h.size();) {
    while (i < h.size() && h[i] == ' ') ++i;
    if (i >= h.size()) break;
    BOp o{h[i], 0, 0}; char* e;
    o.a = strtoul(h.c_str() + i + 1, &e, 10);
    if (*e == ',') o.b = strtoul(e + 1, &e, 10);
    i = e - h.c_str();
    r.push_back(o);
  }
  return r;
}
inline std::string hist_text(const std::vector<BOp>& v) {
  std::string s; for (auto& o : v) { if (!s.empty()) s += ' '; s += bop_text(o); } return s;
}

// Labels: existing element i of a state has value 1000+i.
constexpr uint32_t kOld = 1000, kNew = 5000;
inline Vec old_model(size_t n) { Vec m(n); for (size_t i = 0; i < n; ++i) m[i] = uint32_t(kOld + i); return m; }
// Element types too small for the labels compare modulo their range.
template <class T> uint32_t fold(uint32_t v) { return val(mk<T>(v)); }

// Puts the container of one slot into the state a history leads to.
template <class C> struct Maker {
  using S = typename C::Seq; using T = typename C::T; using A = typename C::A;
  static S& at(int i) { return *reinterpret_cast<S*>(W().slot[i]); }
  static void construct(int i, uint32_t tag) {
    indeterminate(W().slot[i], sizeof W().slot[i]);
    if constexpr ((C::pol & A_STATE) != 0) new (W().slot[i]) S(A(tag)); else { (void)tag; new (W().slot[i]) S(); }
  }
  static void replay(int i, const std::vector<BOp>& h) { for (auto& o : h) { W().opid++; Builder<C>::apply(at(i), o); } }
  static void relabel(int i, const Vec& model) {
    S& c = at(i); size_t j = 0;
    for (auto it = c.begin(), e = c.end(); it != e && j < model.size(); ++it, ++j) El<T>::put(*it, model[j]);
  }
};
constexpr uint32_t kOther2 = 3000;                 // labels of the second container

// One state under examination: fresh() puts the real container (or pair) back into it.
template <class C> struct State {
  using S = typename C::Seq; using T = typename C::T;
  Snapshot snap; size_t n = 0, n2 = 0; Vec model, model2;
  std::vector<BOp> hist, hist2; bool pair = false, built = false;
  uint32_t tag = 1, tag2 = 1;
  static S& seq(int i) { return Maker<C>::at(i); }
  S& fresh() {
    R.progress = R.progress + 1;
    if constexpr (C::rebuild) remake(); else snap.restore();
    W().opid++;
    if constexpr (!C::rebuild) fence();
    return seq(0);
  }
  S& second() { return seq(1); }
  void remake() {
    if (built) { seq(0).~S(); if (pair) seq(1).~S(); }
    snap.restore();
    raw();
    relabel();
  }
  void raw() {
    Maker<C>::construct(0, tag); Maker<C>::replay(0, hist);
    if (pair) { Maker<C>::construct(1, tag2); Maker<C>::replay(1, hist2); }
    built = true;
  }
  void relabel() { Maker<C>::relabel(0, model); if (pair) Maker<C>::relabel(1, model2); }
  // Builds the state in a fresh world and saves it.
  void build() {
    R.hist = pair ? hist_text(hist) + " | " + hist_text(hist2) : hist_text(hist);
    set_op("build");
    if (C::rebuild && built) { seq(0).~S(); if (pair) seq(1).~S(); built = false; }
    world_init(); FreeHook<T>::set();
    if (C::rebuild) snap.save();
    raw();
    n = seq(0).size(); model = old_model(n);
    if (pair) { n2 = seq(1).size(); model2 = old_model(n2); for (auto& x : model2) x += kOther2 - kOld; }
    relabel();
    R.progress = R.progress + 1;
    if (!C::rebuild) snap.save();
  }
  ~State() { if (C::rebuild && built) { seq(0).~S(); if (pair) seq(1).~S(); } }
};

template <class T> std::string show(const Vec& v, size_t maxn = 24) {
  std::string s = "["; char b[16];
  for (size_t i = 0; i < v.size() && i < maxn; ++i) { snprintf(b, sizeof b, "%s%u", i ? "," : "", v[i]); s += b; }
  if (v.size() > maxn) s += ",...";
  return s + "]";
}
// Contents by forward iteration, bounded so that a broken chain cannot loop for ever.
template <class S> Vec contents(const S& c, size_t cap) {
  Vec r; r.reserve(cap + 1);
  auto it = c.begin(); auto e = c.end();
  for (size_t i = 0; it != e; ++it, ++i) { if (i > cap) break; r.push_back(val(*it)); }
  return r;
}
template <class T> Vec folded(const Vec& m) { Vec r(m); for (auto& x : r) x = fold<T>(x); return r; }

// The container holds exactly the model: sizes and all elements, forward and by index.
template <class S> bool same_contents(const S& c, const Vec& model, const char* what = "contents") {
  using T = typename S::value_type;
  R.checks++;
  size_t n = model.size();
  if (c.size() != n) { err(what, "size() is %zu, expected %zu", size_t(c.size()), n); return false; }
  if (c.empty() != (n == 0)) { err(what, "empty() is %d with %zu elements", int(c.empty()), n); return false; }
  auto it = c.begin(); auto e = c.end();
  size_t i = 0;
  for (; it != e && i <= n; ++it, ++i) {
    if (i == n) break;
    uint32_t g = val(*it), w = fold<T>(model[i]);
    if (g != w) { err(what, "element %zu is %u, expected %u (expected contents %s, got %s)", i, g, w, show<T>(model).c_str(), show<T>(contents(c, n)).c_str()); return false; }
  }
  if (i != n || it != e) { err(what, "iteration meets %s than %zu elements", i < n ? "fewer" : "more", n); return false; }
  return true;
}
// As same_contents, and backwards, and by index.
template <class S> bool full_contents(S& c, const Vec& model, const char* what = "contents") {
  using T = typename S::value_type;
  if (!same_contents(c, model, what)) return false;
  size_t n = model.size();
  const S& k = c;
  for (size_t i = 0; i < n; ++i) {
    if (val(c[i]) != fold<T>(model[i])) { err(what, "operator[](%zu) gives %u, expected %u", i, val(c[i]), fold<T>(model[i])); return false; }
    if (val(*k.nth(i)) != fold<T>(model[i])) { err(what, "nth(%zu) gives %u, expected %u", i, val(*k.nth(i)), fold<T>(model[i])); return false; }
  }
  auto it = k.end();
  for (size_t i = n; i-- > 0;) {
    --it;
    if (val(*it) != fold<T>(model[i])) { err(what, "iterating backwards, element %zu is %u, expected %u", i, val(*it), fold<T>(model[i])); return false; }
  }
  if (it != k.begin()) { err(what, "iterating backwards does not end at begin()"); return false; }
  return true;
}

// ------------------------------------------------------------- the explorer
// Edit positions: every one in small states, structural neighbourhoods in large ones.
inline std::vector<uint32_t> positions(size_t n, size_t segmax, size_t dense = 160) {
  std::vector<uint32_t> r;
  if (n <= dense) { for (size_t i = 0; i < n; ++i) r.push_back(uint32_t(i)); return r; }
  auto around = [&](size_t p) { for (long d = -2; d <= 2; ++d) { long q = long(p) + d; if (q >= 0 && q < long(n)) r.push_back(uint32_t(q)); } };
  size_t steps = n > 5000 ? 6 : 24;
  around(0); around(n - 1); around(n / 2); around(255); around(65535); around(segmax); around((segmax + 1) / 2); around(n - segmax);
  for (size_t k = 1; k < steps; ++k) { r.push_back(uint32_t(n * k / steps)); size_t q = n * k / steps / ((segmax + 1) / 2) * ((segmax + 1) / 2); r.push_back(uint32_t(q)); if (q) r.push_back(uint32_t(q - 1)); }
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}

// The same, at most about `most` of them.
inline std::vector<uint32_t> few_positions(size_t n, size_t segmax, size_t most, size_t dense = 160) {
  auto r = positions(n, segmax, dense);
  if (n <= dense || r.size() <= most) return r;
  std::vector<uint32_t> q;
  for (size_t i = 0; i < most; ++i) q.push_back(r[i * (r.size() - 1) / (most - 1)]);
  q.erase(std::unique(q.begin(), q.end()), q.end());
  return q;
}

template <class C> struct Explorer {
  using S = typename C::Seq; using T = typename C::T;
  struct St { uint32_t parent; BOp op; uint32_t n; uint16_t depth; };
  std::string name;
  std::vector<St> st;
  std::unordered_map<std::string, uint32_t> seen;
  std::vector<const std::string*> keys;            // of each state, as found
  std::vector<std::vector<BOp>> roots;
  uint64_t edges = 0;
  std::vector<BOp> path(uint32_t id) {
    std::vector<BOp> r;
    while (st[id].parent != UINT32_MAX) { r.push_back(st[id].op); id = st[id].parent; }
    auto& root = roots[st[id].op.a];
    std::vector<BOp> full(root);
    for (size_t i = r.size(); i-- > 0;) full.push_back(r[i]);
    return full;
  }
  // All states of at most maxn elements; visit(State&) is called once in each.
  template <class V> void explore(const std::string& nm, size_t maxn, V visit, uint64_t maxstates = UINT64_MAX) {
    explore_from(nm, {{}}, maxn, 0xFFFF, visit, maxstates);
  }
  // From given histories: every state within `depth` further single edits.
  template <class V> void explore_from(const std::string& nm, std::vector<std::vector<BOp>> rts, size_t maxn, unsigned depth, V visit,
                                       uint64_t maxstates = UINT64_MAX) {
    name = nm; R.cfg = nm; roots = std::move(rts);
    if (!R.replay_cfg.empty()) {
      if (R.replay_cfg != nm) return;
      State<C> s; s.hist = parse_hist(R.replay_hist);
      s.build(); settle();
      R.states++;
      visit(s);
      settle();
      return;
    }
    double t0 = now();
    State<C> s;
    for (size_t i = 0; i < roots.size(); ++i) {
      s.hist = roots[i]; s.build();
      auto k = state_key(s.seq(0));
      auto r = seen.emplace(k, uint32_t(st.size()));
      if (r.second) { st.push_back({UINT32_MAX, {0, uint32_t(i), 0}, uint32_t(s.n), 0}); keys.push_back(&r.first->first); }
    }
    for (uint32_t id = 0; id < st.size(); ++id) {
      if (id >= maxstates || now() - g_start > R.budget) { R.truncated = true; break; }
      s.hist = path(id);
      s.build();
      settle();
      // The state was found by one edit of a restored memory image; its whole history, replayed
      // from the empty sequence, must lead to the same state.
      R.counts[state_key(s.seq(0)) == *keys[id] ? "replays" : "replay-mismatch"]++;
      R.states++; R.cfg_states[nm]++;
      if (kSamples && (id == 3 || id % 9973 == 7)) sample(nm + ": " + (R.hist.size() > 200 ? R.hist.substr(0, 200) + "..." : R.hist));
      visit(s);
      settle();
      if (st[id].depth >= depth) continue;
      auto edge = [&](BOp o) {
        S& c = s.fresh();
        set_op("edge");
        Builder<C>::apply(c, o, 9);
        edges++;
        g_err.set = false;                         // monitors speak in visit(), where the operation is named
        auto k = state_key(c);
        auto r = seen.emplace(std::move(k), uint32_t(st.size()));
        if (r.second) { st.push_back({id, o, uint32_t(c.size()), uint16_t(st[id].depth + 1)}); keys.push_back(&r.first->first); }
      };
      if (s.n < maxn) { for (uint32_t p : positions(s.n + 1, C::segmax)) edge({'I', p, 0}); }
      for (uint32_t p : positions(s.n, C::segmax)) edge({'E', p, 0});
      // Bulk edits lead to states too; single edits reach them all as long as the code is right.
      if (depth == 0xFFFF && s.n <= (R.thorough() ? 14u : 10u)) {
        uint32_t n = uint32_t(s.n), ks[] = {2, uint32_t(C::segmax), uint32_t(C::segmax + 1), uint32_t(2 * C::segmax + 1)};
        for (uint32_t i = 0; i < n; ++i) for (uint32_t j = i + 2; j <= n; ++j) { edge({'X', i, j}); if (i == 0 || j == n) edge({'T', i, j}); }
        for (uint32_t k : ks) {
          if (n + k > maxn) continue;
          for (uint32_t i = 0; i <= n; ++i) { edge({'N', i, k}); edge({'S', i, k}); }
          edge({'G', k, 0});
        }
        for (uint32_t k = 0; k <= n + 2 && k <= maxn; ++k) { edge({'A', k, 0}); edge({'Z', k, 0}); }
        edge({'Y', 0, 0}); edge({'V', 0, 0}); edge({'W', 0, 0});
      }
    }
    R.counts["edges"] += edges;
    R.counts["ms " + nm] += uint64_t((now() - t0) * 1000);
  }
  // Every pair of states of at most maxa and maxb elements (slots 0 and 1).
  template <class V> void explore_pairs(const std::string& nm, size_t maxa, size_t maxb, V visit, uint32_t tag = 1, uint32_t tag2 = 1) {
    State<C> s; s.tag = tag; s.tag2 = tag2;
    if (!R.replay_cfg.empty()) {
      if (R.replay_cfg != nm) return;
      R.cfg = nm; s.pair = true;
      auto bar = R.replay_hist.find('|');
      s.hist = parse_hist(R.replay_hist.substr(0, bar)); s.hist2 = parse_hist(bar == std::string::npos ? "" : R.replay_hist.substr(bar + 1));
      s.build(); settle(); R.states++; visit(s); settle();
      return;
    }
    std::vector<std::pair<size_t, std::vector<BOp>>> all;
    { auto v = [&](State<C>& x) { all.push_back({x.n, x.hist}); };
      auto st0 = R.states; explore(nm + "/collect", maxa > maxb ? maxa : maxb, v); R.cfg_states.erase(nm + "/collect"); R.states = st0; }
    pairs_of(nm, all, maxa, maxb, visit, s);
  }
  template <class V> void explore_pairs_from(const std::string& nm, const std::vector<std::vector<BOp>>& rts, V visit, uint32_t tag = 1, uint32_t tag2 = 1) {
    State<C> s; s.tag = tag; s.tag2 = tag2;
    if (!R.replay_cfg.empty()) { explore_pairs(nm, 0, 0, visit, tag, tag2); return; }
    std::vector<std::pair<size_t, std::vector<BOp>>> all;
    for (auto& r : rts) all.push_back({0, r});
    pairs_of(nm, all, 0, 0, visit, s);
  }
  template <class V> void pairs_of(const std::string& nm, std::vector<std::pair<size_t, std::vector<BOp>>>& all, size_t maxa, size_t maxb, V visit, State<C>& s) {
    double t0 = now();
    R.cfg = nm;
    uint64_t cnt = 0;
    for (auto& a : all) {
      if (a.first > maxa) continue;
      for (auto& b : all) {
        if (b.first > maxb) continue;
        if (now() - g_start > R.budget) { R.truncated = true; return; }
        if (C::rebuild && s.built) { s.seq(0).~S(); if (s.pair) s.seq(1).~S(); s.built = false; }
        s.pair = true; s.hist = a.second; s.hist2 = b.second;
        s.build(); settle();
        R.counts["replays"]++;
        R.states++; R.cfg_states[nm]++;
        if (kSamples && cnt++ % 1237 == 17) sample(nm + ": " + (R.hist.size() > 200 ? R.hist.substr(0, 200) + "..." : R.hist));
        visit(s);
        settle();
      }
    }
    R.counts["ms " + nm] += uint64_t((now() - t0) * 1000);
  }
};
// Histories that fill a container to about n elements in different orders.
inline std::vector<std::vector<BOp>> fills(std::initializer_list<uint32_t> ns, bool all_orders = true) {
  std::vector<std::vector<BOp>> r;
  for (uint32_t n : ns) {
    r.push_back({{'B', n, 0}});
    if (all_orders) {
      r.push_back({{'F', n, 0}});
      r.push_back({{'M', n, 0}});
      r.push_back({{'B', n + n / 2, 0}, {'X', n / 4, n / 4 + n / 2}});
    }
  }
  return r;
}

#define MC_MAIN(...) int main(int argc, char** argv) { mc::parse_args(argc, argv); mc::install_signals(); mc::world_init(); \
  __VA_ARGS__; mc::write_result("ok", "", ""); mc::finish(0); }

}  // namespace mc
