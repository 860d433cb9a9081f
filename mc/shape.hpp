// What a half-full tree may look like.
#pragma once
#include "suite.hpp"
namespace mc {
// Tallest B+tree for n elements whose blocks and nodes are at least half full, the root excepted.
inline size_t tallest(size_t n, size_t segmin, size_t basemin) {
  if (n == 0) return 0;
  size_t h = 1, least = 2 * segmin;               // elements a tree of height 2 has at least
  while (least <= n) { ++h; if (least > n / basemin) break; least *= basemin; }
  return h;
}
template <class C> bool height_ok(const typename C::Seq& c) {
  size_t n = c.size(), h = c.height();
  R.checks++;
  if ((n == 0) != (h == 0)) { err("height", "height() is %zu with %zu elements", h, n); return false; }
  size_t t = tallest(n, C::segmin, C::basemin);
  if (h > t) { err("height", "height() is %zu with %zu elements, a half-full tree is at most %zu high", h, n, t); return false; }
  if (n) {
    auto b = c.begin(); auto l = c.penultimate();
    bool one = b.begin() == l.begin();
    if (one != (h == 1)) { err("height", "height() is %zu with %zu elements in %s", h, n, one ? "one block" : "several blocks"); return false; }
    if (n > C::segmax && one) { err("height", "%zu elements share a block of capacity %zu", n, C::segmax); return false; }
  }
  return true;
}
// Most blocks and nodes n elements may need.
template <class C> void most_blocks(size_t n, size_t& segs, size_t& nodes) {
  nodes = 0;
  if (n == 0) { segs = 0; return; }
  segs = n / C::segmin > 1 ? n / C::segmin : 1;
  for (size_t k = segs; k > 1;) { k = k / C::basemin > 1 ? k / C::basemin : 1; nodes += k; }
}
constexpr size_t kNode3 = 16 + 3 * 16;            // a three-way index node: header, sizes, pointers
template <class C> bool memory_ok(std::initializer_list<size_t> sizes) {
  World& w = W();
  R.checks++;
  size_t segs = 0, nodes = 0;
  for (size_t n : sizes) { size_t a, b; most_blocks<C>(n, a, b); segs += a; nodes += b; }
  if (w.live_blocks[kSeg] < 0 || w.live_blocks[kNode] < 0 || size_t(w.live_blocks[kSeg]) > segs || size_t(w.live_blocks[kNode]) > nodes || w.live_blocks[kOther]) {
    err("mem-held", "%lld element blocks and %lld index nodes are held, half-full ones for the contents would be %zu and %zu", (long long)w.live_blocks[kSeg], (long long)w.live_blocks[kNode], segs, nodes);
    return false;
  }
  size_t maxs = C::segtarget > sizeof(typename C::T) ? C::segtarget : sizeof(typename C::T), maxn = C::basetarget > kNode3 ? C::basetarget : kNode3;
  if (w.max_bytes[kSeg] > maxs) { err("mem-target", "an element block of %llu bytes was requested, the target allows %zu", (unsigned long long)w.max_bytes[kSeg], maxs); return false; }
  if (w.max_bytes[kNode] > maxn) { err("mem-target", "an index node of %llu bytes was requested, the target allows %zu", (unsigned long long)w.max_bytes[kNode], maxn); return false; }
  return true;
}
// Long histories built from a few macro edits: every word of a given length.
//  each letter performs `chunk` single edits; check(c) is called after every edit.
template <class C, class Chk> void macro_histories(const char* name, unsigned length, size_t chunk, size_t start, Chk check) {
  using S = typename C::Seq; using T = typename C::T;
  static const char* letters = "BFMAbfma";         // push back/front/middle/alternating, and the same for erasing
  unsigned total = 1; for (unsigned i = 0; i < length; ++i) total *= 8;
  R.cfg = name;
  for (unsigned w = 0; w < total; ++w) {
    char word[16]; unsigned x = w;
    for (unsigned i = 0; i < length; ++i) { word[i] = letters[x % 8]; x /= 8; }
    word[length] = 0;
    if (!R.replay_cfg.empty() && (R.replay_cfg != name || R.replay_hist != word)) continue;
    R.hist = word; set_op("macro");
    world_init(); FreeHook<T>::set(); Maker<C>::construct(0, 1);
    S& c = Maker<C>::at(0);
    for (size_t i = 0; i < start; ++i) c.push_back(mk<T>(1));
    size_t step = 0;
    for (unsigned i = 0; i < length; ++i)
      for (size_t k = 0; k < chunk; ++k, ++step) {
        W().opid++; R.progress = R.progress + 1;
        size_t n = c.size();
        set_op("macro step", step);
        switch (word[i]) {
          case 'B': c.push_back(mk<T>(1)); break;
          case 'F': c.push_front(mk<T>(1)); break;
          case 'M': c.insert(c.nth(n / 2), mk<T>(1)); break;
          case 'A': c.insert(c.nth(k % 2 ? n / 3 : n - n / 4), mk<T>(1)); break;
          case 'b': if (n) c.pop_back(); break;
          case 'f': if (n) c.pop_front(); break;
          case 'm': if (n) c.erase(c.nth(n / 2)); break;
          case 'a': if (n) c.erase(c.nth(k % 2 ? n / 3 : n - 1 - n / 4)); break;
        }
        R.transitions++;
        check(c);
        if (settle()) break;
      }
    R.states++; R.cfg_states[name]++;
    c.~S();
    if (W().live_blocks[kSeg] || W().live_blocks[kNode]) err("mem-held", "destruction leaves %lld blocks and %lld nodes", (long long)W().live_blocks[kSeg], (long long)W().live_blocks[kNode]);
    settle();
  }
  R.counts["replays"] += R.cfg_states[name];
}
}  // namespace mc
