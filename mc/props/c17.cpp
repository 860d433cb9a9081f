// parts: 7
// rule: every way of copying runs on every state (assignment: on every pair of states); afterwards each side is edited in every way and destroyed in turn while the other is compared with what it was; besides, every pair of short sequences of zeros of both signs, NaN and another number, transferred in every way, judged by the exact values
// C17: copies are equal and independent.
#include "../floats.hpp"
using namespace mc;
template <class S> std::vector<const void*> places(const S& c) {
  std::vector<const void*> r; for (auto it = c.begin(), e = c.end(); it != e; ++it) r.push_back(std::addressof(*it)); return r;
}
template <class C> struct V {
  static constexpr int less = 3;
  using S = typename C::Seq; using T = typename C::T;
  // the edits made to one side while the other is watched
  static constexpr int kEdits = 9;
  static void edit(S& c, int e, size_t p) {
    size_t n = c.size();
    switch (e) {
      case 0: c.insert(c.nth(p <= n ? p : n), mk<T>(9001)); break;
      case 1: if (p < n) c.erase(c.nth(p)); break;
      case 2: if (p < n) El<T>::put(c[p], 9002); break;
      case 3: c.clear(); break;
      case 4: c.reverse(); break;
      case 5: c.erase(c.nth(n / 3), c.nth(n)); break;
      case 6: { Src<T> v(3, 9003); c.insert(c.nth(n / 2), static_cast<const T*>(v.p), static_cast<const T*>(v.p) + 3); break; }
      case 7: { S gone(std::move(c)); break; }
      case 8: c.assign(n + 2, mk<T>(9004)); break;
    }
  }
  // make(c) puts the copy in place and returns it
  template <class M> static void judge(State<C>& s, const char* nm, S& (*target)(State<C>&), size_t total, M make) {
    auto start = [&](const char* then, long a) -> S& { set_op(nm, a); snprintf(R.extra, sizeof R.extra, "%s", then); R.transitions++; return s.fresh(); };
    const Vec& src = s.pair ? s.model2 : s.model;
    auto source = [&]() -> S& { return s.pair ? s.second() : s.seq(0); };
    {
      start("", 0);
      auto before = places(source());
      make(); S& d = target(s);
      full_contents(source(), src, "source"); full_contents(d, src, "copy");
      if (!g_err.set && places(source()) != before) err("source", "copying moved the elements of the source");
      if (!g_err.set) { auto a = places(d); std::vector<const void*> b = before; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::vector<const void*> both; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(both)); if (!both.empty()) err("shared", "the copy shares %zu elements with the source", both.size()); }
      if constexpr (El<T>::cmp) if (!g_err.set && (!(d == source()) || d != source() || d < source())) err("copy", "the copy does not compare equal to the source");
      monitors<C>(total);
      if (settle()) return;
    }
    size_t n = src.size();
    for (int e = 0; e < kEdits; ++e) {
      auto ps = e <= 2 ? few_positions(n + 1, C::segmax, 12, 26) : std::vector<uint32_t>{0};
      for (size_t p : ps) {
        start("then an edit of the copy", long(e * 1000 + p)); make(); edit(target(s), e, p); same_contents(source(), src, "source-changed"); if (settle()) return;
        start("then an edit of the source", long(e * 1000 + p)); make(); edit(source(), e, p); same_contents(target(s), src, "copy-changed"); if (settle()) return;
      }
    }
    // destruction of either side
    start("then destruction of the copy", 0); make(); target(s).~S(); same_contents(source(), src, "source-changed"); source().~S(); done("alloc-leak"); if (settle()) return;
    start("then destruction of the source", 0); make(); source().~S(); same_contents(target(s), src, "copy-changed"); target(s).~S(); done("alloc-leak"); if (settle()) return;
  }
  static void done(const char* key) { World& w = W(); if (w.live_blocks[kSeg] || w.live_blocks[kNode] || w.live_elems) err(key, "%lld blocks, %lld nodes and %lld elements remain after both were destroyed", (long long)w.live_blocks[kSeg], (long long)w.live_blocks[kNode], (long long)w.live_elems); }
  static S& slot2(State<C>&) { return Maker<C>::at(2); }
  static S& slot0(State<C>& s) { return s.seq(0); }
  static void visit(State<C>& s) {
    judge(s, "seq(const seq&)", slot2, 2 * s.n, [&] { new (W().slot[2]) S(const_cast<const S&>(s.seq(0))); });
    judge(s, "seq(const seq&,alloc)", slot2, 2 * s.n, [&] { new (W().slot[2]) S(const_cast<const S&>(s.seq(0)), s.seq(0).get_allocator()); });
    for (int way = 0; way < 3; ++way) {
      set_op("self assignment", way); S& c = s.fresh(); R.transitions++;
      S& r = way == 0 ? (c = const_cast<const S&>(c)) : c;
      if (way == 1) c = const_cast<const S&>(c = const_cast<const S&>(c));
      if (way == 2) { S t(const_cast<const S&>(c)); c = const_cast<const S&>(t); t = const_cast<const S&>(c); }
      if (std::addressof(r) != std::addressof(c)) err("self", "assignment does not return the sequence");
      full_contents(c, s.model, "self"); monitors<C>(s.n); if (settle()) return;
    }
  }
};
template <class C> struct VP {
  using S = typename C::Seq;
  static void visit(State<C>& s) {
    V<C>::judge(s, "= const seq&", V<C>::slot0, 2 * s.n2, [&] { S& c = s.seq(0); S& r = (c = const_cast<const S&>(s.second())); if (std::addressof(r) != std::addressof(c)) err("copy", "assignment does not return the sequence"); });
    // and back again
    set_op("= const seq& both ways"); S& c = s.fresh(); R.transitions++;
    S t(const_cast<const S&>(c)); c = const_cast<const S&>(s.second()); s.second() = const_cast<const S&>(t);
    full_contents(c, s.model2, "copy"); full_contents(s.second(), s.model, "copy"); same_contents(t, s.model, "copy"); settle();
  }
};
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta = 1, uint32_t tb = 1) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, ta, tb);
}
// values that compare equal are still different values
template <class F, size_t SM, size_t BM> void exact(const char* name, size_t la, size_t lb) {
  using S = typename StdCfg<F, SM, BM>::Seq; using Q = std::vector<F>;
  R.cfg = name;
  if (!R.replay_cfg.empty() && R.replay_cfg != name) return;
  auto as = kinds_up_to(la, 4), bs = kinds_up_to(lb, 4);
  for (auto& ka : as) {
    R.states++; R.cfg_states[name]++; R.hist = text(ka);
    auto vec = [](const Ks& k) { Q q; for (auto x : k) q.push_back(zoo<F>(x)); return q; };
    for (auto& kb : bs) {
      const S a0 = of_kinds<S>(ka), b0 = of_kinds<S>(kb); const Q va = vec(ka), vb = vec(kb);
      auto run = [&](const char* nm, auto f) {
        set_op(nm); S a(a0), b(b0); Q x(va), y(vb); R.transitions++;
        f(a, b, x, y); exactly(a, x, nm, ka, kb) && exactly(b, y, nm, ka, kb);
        return !settle();
      };
      if (!run("copies", [](S&, S&, Q&, Q&) {})) return;
      if (!run("= const seq&", [](S& a, S& b, Q& x, Q& y) { a = const_cast<const S&>(b); x = y; })) return;
      if (!run("= seq&&", [](S& a, S& b, Q& x, Q& y) { a = std::move(b); x = y; b.clear(); y.clear(); })) return;
      if (!run("assign(range)", [](S& a, S& b, Q& x, Q& y) { a.assign(b.begin(), b.end()); x = y; })) return;
      if (!run("assign(pointers)", [](S& a, S&, Q& x, Q& y) { a.assign(y.data(), y.data() + y.size()); x = y; })) return;
      if (!run("assign(n, value)", [](S& a, S& b, Q& x, Q& y) { for (size_t i = 0; i < y.size(); ++i) { F v = b[i]; a.assign(i + 1, v); x.assign(i + 1, y[i]); } })) return;
      if (!run("resize(n, value)", [](S& a, S& b, Q& x, Q& y) { for (size_t i = 0; i < y.size(); ++i) { a.resize(x.size() + 2, b[i]); x.resize(x.size() + 2, y[i]); } })) return;
      if (!run("insert(range)", [](S& a, S& b, Q& x, Q& y) { size_t h = x.size() / 2; a.insert(a.nth(h), b.begin(), b.end()); x.insert(x.begin() + h, y.begin(), y.end()); })) return;
      if (!run("splice", [](S& a, S& b, Q& x, Q& y) { size_t h = x.size() / 2; a.splice(a.nth(h), b); x.insert(x.begin() + h, y.begin(), y.end()); y.clear(); })) return;
      if (!run("swap", [](S& a, S& b, Q& x, Q& y) { a.swap(b); x.swap(y); })) return;
      if (!run("element = element", [](S& a, S& b, Q& x, Q& y) { for (size_t i = 0; i < x.size() && i < y.size(); ++i) { a[i] = b[i]; x[i] = y[i]; } })) return;
      if (kb.size() > 1) continue;
      if (!run("insert, erase", [](S& a, S& b, Q& x, Q& y) { for (size_t p = 0; p <= x.size() && y.size(); p += 2) { a.insert(a.nth(p), b[0]); x.insert(x.begin() + p, y[0]); } for (size_t p = 0; p < x.size(); ++p) { a.erase(a.nth(p)); x.erase(x.begin() + p); } })) return;
      if (!run("reverse", [](S& a, S&, Q& x, Q&) { a.reverse(); std::reverse(x.begin(), x.end()); })) return;
      if (!run("unique", [](S& a, S&, Q& x, Q&) { a.unique(); x.erase(std::unique(x.begin(), x.end()), x.end()); })) return;
      if (!run("remove", [](S& a, S& b, Q& x, Q& y) { if (y.size()) { F v = b[0]; a.remove(v); x.erase(std::remove(x.begin(), x.end(), y[0]), x.end()); } })) return;
      bool nan = false; for (auto k : ka) nan |= k == 3;
      if (!nan && !run("sort", [](S& a, S&, Q& x, Q&) { a.sort(); std::stable_sort(x.begin(), x.end()); })) return;
    }
  }
  R.counts["replays"] += R.cfg_states[name];
}
void go() {
  focus({"life-", "alloc-"});
#if PART == 1
  BFS("Trk 1,3", 22, 26, Cfg<TF, 1, 3>);
  BFS("Trk 2,3", 12, 14, Cfg<TF, 2, 3>);
#elif PART == 2
  BFS("u32 3,3", 20, 25, Cfg<uint32_t, 3, 3>);
  BFS("copy-only 4,3", 16, 20, Cfg<TC, 4, 3>);
  BFS("Trk 5,4", 18, 22, Cfg<TF, 5, 4>);
#elif PART == 3
  FROM("Trk 8,6", fills({20, 45, 70}), 0, 1, Cfg<TF, 8, 6>);
  FROM("tall u32 2,3", fills({50, 90}), 0, 0, Cfg<uint32_t, 2, 3>);
  FROM("default u64", fills({128, 129, 700, 6100}), 0, 0, Cfg<uint64_t, 128, 47, 0, 1024, 768>);
  FROM("default Trk", fills({64, 65, 300}), 0, 0, Cfg<TF, 64, 47, 0, 1024, 768>);
  FROM("long u32", fills({66000}, false), 0, 0, Cfg<uint32_t, 64, 47, 0, 256, 768>);
#elif PART == 4
  pairs<Cfg<TF, 2, 3>>("pairs 2,3", 6, 7);
  pairs<Cfg<TC, 3, 3>>("pairs copy-only 3,3", 8, 10);
#elif PART == 5
  pairs<Cfg<TF, 1, 3>>("pairs 1,3", 9, 11);
  pairs<Cfg<uint32_t, 4, 3>>("pairs u32 4,3", 8, 10);
#elif PART == 6
  pairs<Cfg<TF, 2, 3, A_STATE | A_CCA>>("two allocators, copy propagates 2,3", 5, 6, 1, 2);
  pairs<Cfg<TF, 3, 3, A_STATE>>("two allocators 3,3", 7, 9, 1, 2);
  pairs<Cfg<uint32_t, 2, 3, A_STATE | A_CCA>>("one allocator, copy propagates 2,3", 5, 6, 1, 1);
#elif PART == 7
  exact<double, 2, 3>("exact double 2,3", R.thorough() ? 6 : 5, R.thorough() ? 4 : 3);
  exact<float, 1, 3>("exact float 1,3", 4, 4);
  exact<long double, 3, 3>("exact long double 3,3", 4, 4);
#endif
}
MC_MAIN(go())
