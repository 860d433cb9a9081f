// parts: 6
// rule: element moves, copies, assignments and memory requests of every edit are counted in every state and compared with a bound that depends only on the block capacity and the height
// C09: one edit costs a bounded number of moves and allocations.
#include "../shape.hpp"
using namespace mc;
struct Cost { uint64_t work, segs, nodes; };
inline Cost cost() { World& w = W(); return {w.moves + w.copies + w.massigns + w.cassigns, w.allocs[kSeg], w.allocs[kNode]}; }
inline uint64_t g_max_ins, g_max_era;
template <class C> struct V {
  static constexpr int less = 2;
  using S = typename C::Seq;
  // most element operations one inserted or erased element may cost
  static constexpr uint64_t ins_work = 2 * C::segmax + 8, era_work = 2 * C::segmax + 8;
  static void one(State<C>& s, const Op<S>& o, uint64_t ins, uint64_t era) {
    op_name(o);
    S& c = s.fresh(); R.transitions++;
    size_t h0 = c.height();
    Cost a = cost();
    o.run(c);
    Cost b = cost();
    size_t h1 = c.height(), h = h0 > h1 ? h0 : h1;
    if (o.flags & O_CTOR) { S& d = Maker<C>::at(2); h = d.height(); d.~S(); }
    if (s.pair && s.second().height() > h) h = s.second().height();
    uint64_t work = b.work - a.work, segs = b.segs - a.segs, nodes = b.nodes - a.nodes;
    uint64_t most = ins * ins_work + era * era_work + 4;
    if (work > most) err("a-work", "%llu element operations for %llu inserted and %llu erased elements, the bound is %llu", (unsigned long long)work, (unsigned long long)ins, (unsigned long long)era, (unsigned long long)most);
    uint64_t levels = h > 1 ? h - 1 : 0;
    if (segs > ins) err("a-allocs", "%llu element blocks requested for %llu inserted elements", (unsigned long long)segs, (unsigned long long)ins);
    if (nodes > ins * levels) err("a-allocs", "%llu index nodes requested for %llu inserted elements at height %zu", (unsigned long long)nodes, (unsigned long long)ins, h);
    R.checks++;
    if (ins == 1 && !era) { if (work * 1000 / C::segmax > g_max_ins) g_max_ins = work * 1000 / C::segmax; outcome(segs ? nodes ? "insertion with block and node" : "insertion with block" : "insertion in place"); }
    if (era == 1 && !ins) { if (work * 1000 / C::segmax > g_max_era) g_max_era = work * 1000 / C::segmax; }
    settle();
  }
  static void visit(State<C>& s) {
    ops_single<C>(s, [&](const Op<S>& o) { one(s, o, 1, 0); });
    ops_erase1<C>(s, [&](const Op<S>& o) { one(s, o, 0, 1); });
    ops_erase_range<C>(s, [&](const Op<S>& o) { one(s, o, 0, o.name[0] == 'c' ? 0 : uint64_t(o.b - o.a)); });
    ops_insert_bulk<C>(s, s.n <= 24 ? std::vector<size_t>{0, 1, 2, 3, 7} : std::vector<size_t>{0, 1, C::segmax + 1}, [&](const Op<S>& o) { one(s, o, uint64_t(o.inserted), 0); });
    auto resizes = [&](const Op<S>& o) { if (o.flags & O_RESIZE) one(s, o, uint64_t(o.inserted), size_t(o.a) < s.n ? s.n - o.a : 0); };
    ops_assign<C>(s, {s.n / 2, s.n, s.n + 1, s.n + 7}, resizes);
    if (s.n == 0) ops_ctor<C>(s, upto(60), [&](const Op<S>& o) { one(s, o, uint64_t(o.inserted), 0); });
  }
};
template <class C> void macro(const char* name, unsigned q, unsigned t, size_t chunk, size_t start) {
  Cost last{0, 0, 0}; size_t lastn = 0; std::string word;
  macro_histories<C>(name, R.thorough() ? t : q, chunk, start, [&](typename C::Seq& c) {
    Cost now_ = cost(); size_t n = c.size(), h = c.height();
    size_t grown = n - lastn;
    if (word != R.hist) { word = R.hist; grown = 0; }   // another history begins
    if ((grown == 1 || grown == size_t(-1)) && now_.work >= last.work && now_.segs >= last.segs && now_.nodes >= last.nodes) {
      uint64_t work = now_.work - last.work;
      if (work > V<C>::ins_work + 4) err("a-work", "%llu element operations for one edit of %zu elements", (unsigned long long)work, n);
      bool in = grown == 1;
      if (now_.segs - last.segs > (in ? 1 : 0) || now_.nodes - last.nodes > (in && h > 1 ? h - 1 : 0)) err("a-allocs", "%llu blocks and %llu nodes requested by one %s of %zu elements", (unsigned long long)(now_.segs - last.segs), (unsigned long long)(now_.nodes - last.nodes), in ? "insertion" : "erasure", n);
    }
    last = now_; lastn = n;
  });
}
void go() {
  focus({"a-"});
#if PART == 1
  BFS("Trk 1,3", 22, 27, Cfg<TF, 1, 3>);
#elif PART == 2
  BFS("Trk 2,3", 12, 14, Cfg<TF, 2, 3>);
  BFS("Trk 3,3", 19, 24, Cfg<TF, 3, 3>);
  BFS("Trk 4,3", 16, 20, Cfg<TF, 4, 3>);
#elif PART == 3
  BFS("Trk 5,4", 19, 23, Cfg<TF, 5, 4>);
  BFS("move-only 3,3", 16, 20, Cfg<TM, 3, 3>);
  BFS("copy-only 4,3", 13, 17, Cfg<TC, 4, 3>);
  FROM("Trk 8,6", fills({20, 45, 70}), 1, 1, Cfg<TF, 8, 6>);
#elif PART == 4
  FROM("many 8,6", fills({500, 3000}), 0, 1, Cfg<TF, 8, 6>);
  FROM("many 16,4", fills({400, 4000}), 0, 1, Cfg<TF, 16, 4>);
  FROM("default", fills({64, 65, 200, 6000, 9000}), 0, 0, Cfg<TF, 64, 47, 0, 1024, 768>);
#elif PART == 5
  macro<Cfg<TF, 4, 3>>("macro 4,3", 3, 4, 150, 300);
  macro<Cfg<TF, 1, 3>>("macro 1,3", 3, 4, 60, 100);
  macro<Cfg<TF, 16, 5>>("macro 16,5", 2, 3, 2000, 4000);
#elif PART == 6
  macro<Cfg<TF, 7, 4>>("macro 7,4", 3, 4, 150, 300);
  macro<Cfg<TF, 64, 47, 0, 1024, 768>>("macro default", 2, 3, 3000, 10000);
#endif
  R.counts["most insertion work, 1/1000 of a block"] = g_max_ins;
  R.counts["most erasure work, 1/1000 of a block"] = g_max_era;
}
MC_MAIN(go())
