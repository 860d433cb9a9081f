// parts: 7
// rule: in every state, every single-element insertion at every position is run once for each memory request and element construction it performs, with that one failing, and then retried
// assume: moving an existing element does not throw (C29 covers throwing moves)
// C14: a failed single-element insertion has no effect.
#include "../faults.hpp"
using namespace mc;
using TK = Trk<CPY | MOV | DFL | CMP | 32 | 256>;  // moving the new element (and no other) into place may fail
template <class C> struct V {
  static constexpr int less = 3;
  using S = typename C::Seq; using T = typename C::T;
  static constexpr uint32_t mask = F_ALLOC | F_COPY | F_VALUE | (std::is_same<T, TK>::value ? F_MOVE : 0);
  static void one(State<C>& s, const Op<S>& o, const std::string& key, size_t height) {
    int64_t n = count_faults<C>(s, o, mask);
    g_err.set = false;
    for (int64_t k = 0; k < n; ++k) {
      op_name(o); snprintf(R.extra, sizeof R.extra, "(failing at request %lld)", (long long)k);
      S& c = s.fresh(); R.transitions++;
      World& w = W();
      int64_t b0 = w.live_blocks[kSeg], b1 = w.live_blocks[kNode], y0 = w.live_bytes[kSeg], y1 = w.live_bytes[kNode];
      // iterators and addresses obtained before
      auto qs = few_positions(s.n + 1, C::segmax, 8, 12);
      std::vector<typename S::iterator> its; std::vector<T*> addr;
      for (size_t q : qs) { its.push_back(c.nth(q)); addr.push_back(q < s.n ? std::addressof(c[q]) : nullptr); }
      faults_on(mask, k);
      bool threw = false;
      try { o.run(c); } catch (const Fault&) { threw = true; } catch (...) { err("exception", "another exception than the one that was raised came out"); }
      faults_off();
      if (!threw) { err("swallowed", "the exception did not come out"); settle(); return; }
      R.checks++;
      if (s.n <= 60) full_contents(c, s.model, "not-as-before"); else same_contents(c, s.model, "not-as-before");
      if (c.height() != height) err("not-as-before", "height() was %zu and is %zu after the failure", height, size_t(c.height()));
      if (state_key(c) != key) err("not-as-before", "the tree has another shape after the failure");
      if (w.live_blocks[kSeg] != b0 || w.live_blocks[kNode] != b1 || w.live_bytes[kSeg] != y0 || w.live_bytes[kNode] != y1)
        err("not-as-before", "after the failure %lld element blocks and %lld index nodes are held, before it %lld and %lld", (long long)w.live_blocks[kSeg], (long long)w.live_blocks[kNode], (long long)b0, (long long)b1);
      monitors<C>(s.n);
      for (size_t i = 0; i < qs.size() && !g_err.set; ++i) {
        if (addr[i] && (std::addressof(*its[i]) != addr[i] || std::addressof(c[qs[i]]) != addr[i])) err("not-as-before", "an iterator or reference to element %u obtained before the failure is no longer valid", qs[i]);
        else iter_exact(c, its[i], qs[i], s.model, false);
      }
      if (settle()) return;
      // retry, the iterator obtained earlier telling where
      strcat(R.extra, " then retried");
      long r = o.run(c);
      same_contents(c, *o.expect, "retry");
      if (!g_err.set && o.ret >= 0 && r != o.ret) err("retry", "the retried insertion returns index %ld, expected %ld", r, o.ret);
      monitors<C>(o.expect->size());
      if (settle()) return;
      outcome(n > 2 ? "several requests" : n == 2 ? "two requests" : "one request");
    }
  }
  static void visit(State<C>& s) {
    if constexpr (C::rebuild) return;
    else {
      S& c = s.fresh();
      std::string key = state_key(c); size_t h = c.height();
      ops_single<C>(s, [&](const Op<S>& o) { one(s, o, key, h); });
    }
  }
};
void go() {
  focus({"life-", "alloc-"});
#if PART == 1
  BFS("Trk 1,3", 22, 27, Cfg<TF, 1, 3>);
#elif PART == 2
  BFS("Trk 2,3", 13, 15, Cfg<TF, 2, 3>);
  BFS("Trk 4,3", 18, 22, Cfg<TF, 4, 3>);
#elif PART == 3
  BFS("u32 3,3", 20, 25, Cfg<uint32_t, 3, 3>);
  BFS("Trk 3,3", 19, 24, Cfg<TF, 3, 3>);
#elif PART == 4
  BFS("move-only 5,4", 20, 25, Cfg<TM, 5, 4>);
  BFS("Trk 1,5", 22, 27, Cfg<TF, 1, 5>);
  BFS("construct/destroy 2,3", 11, 13, Cfg<TF, 2, 3, A_CON | A_DES>);
#elif PART == 5
  FROM("Trk 8,6", fills({20, 45, 70}), 1, 1, Cfg<TF, 8, 6>);
  FROM("tall Trk 1,3", fills({33, 64, 100}), 0, 1, Cfg<TF, 1, 3>);
  FROM("tall Trk 3,4", fills({70, 110}), 0, 1, Cfg<TF, 3, 4>);
#elif PART == 6
  FROM("default Trk", fills({63, 64, 65, 97, 200, 2000, 3100}), 0, 0, Cfg<TF, 64, 47, 0, 1024, 768>);
  FROM("default u64", fills({127, 128, 129, 500, 6016}), 0, 0, Cfg<uint64_t, 128, 47, 0, 1024, 768>);
  FROM("many u32 2,3", fills({800}), 0, 0, Cfg<uint32_t, 2, 3>);
#elif PART == 7
  BFS("new element's move fails 1,3", 18, 22, Cfg<TK, 1, 3>);
  BFS("new element's move fails 2,3", 12, 14, Cfg<TK, 2, 3>);
  BFS("new element's move fails 4,3", 18, 22, Cfg<TK, 4, 3>);
  BFS("new element's move fails, construct and destroy 3,3", 15, 19, Cfg<TK, 3, 3, A_CON | A_DES>);
  FROM("new element's move fails 8,6", fills({20, 45}), 1, 1, Cfg<TK, 8, 6>);
#endif
}
MC_MAIN(go())
