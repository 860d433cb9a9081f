// parts: 8
// rule: for every pair of states of the bounded space, every pair of value patterns over {0,1,2} (both patterns complete for small sizes; beyond them each single difference, each truncation and each order at each position) the six operators are compared with those of arrays, in both directions; besides, every pair of short sequences with zeros of both signs and NaN, each with itself too
// C23: comparison operators implement lexicographic order.
#include "../faults.hpp"
#include "../floats.hpp"
using namespace mc;
template <class C> struct VP {
  using S = typename C::Seq; using T = typename C::T;
  static bool six(State<C>& s, const S& a, const S& b, const Vec& x, const Vec& y) {
    R.transitions++; R.checks += 6;
    auto less = [](uint32_t p, uint32_t q) { return std::is_same<T, Strict>::value ? p / 2 < q / 2 : p < q; };
    bool eq = x == y, lt = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end(), less), gt = std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end(), less);
    const char* bad = nullptr;
    if ((a == b) != eq) bad = "=="; else if ((a != b) == eq) bad = "!="; else if ((a < b) != lt) bad = "<"; else if ((a > b) != gt) bad = ">";
    else if ((a <= b) == gt) bad = "<="; else if ((a >= b) == lt) bad = ">=";
    if (bad) { err("comparison", "operator%s is wrong for %s and %s", bad, show<T>(x).c_str(), show<T>(y).c_str()); settle(); return false; }
    R.outcomes[eq ? "equal" : lt ? "less" : gt ? "greater" : "equivalent"]++;
    (void)s;
    return true;
  }
  template <class Fn> static void all(size_t n, unsigned radix, Fn fn) {
    Vec k(n, 0);
    for (;;) { if (!fn(k)) return; size_t i = 0; while (i < n && ++k[i] == radix) k[i++] = 0; if (i == n) return; }
  }
  static void visit(State<C>& s) {
    S& c = s.fresh(); S& d = s.second();
    const S &a = c, &b = d;
    set_op("comparison");
    size_t total = s.n + s.n2;
    unsigned radix = total <= (R.thorough() ? 9 : 8) ? 3 : total <= 12 ? 2 : 1;
    if (radix > 1) {
      all(s.n, radix, [&](const Vec& x) {
        Maker<C>::relabel(0, x);
        bool ok = true;
        all(s.n2, radix, [&](const Vec& y) { Maker<C>::relabel(1, y); return ok = six(s, a, b, x, y) && six(s, b, a, y, x); });
        return ok && (!same_contents(a, x) ? (settle(), false) : true);
      });
      Vec x(s.n, 1); Maker<C>::relabel(0, x);
      six(s, a, a, x, x);
    } else {
      Vec x(s.n), y(s.n2);
      for (size_t i = 0; i < s.n; ++i) x[i] = 5 + i % 3;
      for (size_t i = 0; i < s.n2; ++i) y[i] = 5 + i % 3;
      Maker<C>::relabel(0, x); Maker<C>::relabel(1, y);
      if (!six(s, a, b, x, y) || !six(s, b, a, y, x) || !six(s, a, a, x, x)) return;
      for (size_t p : few_positions(std::min(s.n, s.n2), C::segmax, 60, 200))
        for (int diff : {-1, 1, 3}) {
          uint32_t keep = x[p]; x[p] = uint32_t(int(x[p]) + diff); El<T>::put(c[p], x[p]);
          if (!six(s, a, b, x, y) || !six(s, b, a, y, x)) return;
          // a second difference further on must not matter
          for (size_t q : {p + 1, s.n - 1}) if (q > p && q < s.n) {
            uint32_t k2 = x[q]; x[q] = k2 - uint32_t(diff); El<T>::put(c[q], x[q]);
            if (!six(s, a, b, x, y) || !six(s, b, a, y, x)) return;
            x[q] = k2; El<T>::put(c[q], k2);
          }
          x[p] = keep; El<T>::put(c[p], keep);
        }
    }
    if constexpr (!C::rebuild) monitors<C>(total);
    settle();
  }
};
template <class C> void pairs(const char* name, size_t q, size_t t, uint32_t ta = 1, uint32_t tb = 1) {
  Explorer<C> e; size_t n = R.thorough() ? t : q; e.explore_pairs(name, n, n, VP<C>::visit, ta, tb);
}
template <class C> void pairs_from(const char* name, std::vector<std::vector<BOp>> f) { Explorer<C> e; e.explore_pairs_from(name, f, VP<C>::visit); }
// numbers that are not equal to themselves
template <class F, size_t SM, size_t BM> void unordered(const char* name, size_t la) {
  using S = typename StdCfg<F, SM, BM>::Seq; using Q = std::vector<F>;
  R.cfg = name;
  if (!R.replay_cfg.empty() && R.replay_cfg != name) return;
  auto ks = kinds_up_to(la, 4); std::vector<S> s; std::vector<Q> q;
  for (auto& k : ks) { s.push_back(of_kinds<S>(k)); Q v; for (auto x : k) v.push_back(zoo<F>(x)); q.push_back(v); }
  for (size_t i = 0; i < ks.size(); ++i) {
    R.states++; R.cfg_states[name]++; R.hist = text(ks[i]);
    for (size_t j = 0; j < ks.size(); ++j) {
      set_op("comparison", long(j)); R.transitions++; R.checks += 4;
      const S &a = s[i], &b = s[j]; const Q &x = q[i], &y = q[j];
      bool eq = x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin());
      bool lt = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()), gt = std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end());
      if ((a == b) != eq || (a != b) == eq || (a < b) != lt || (a > b) != gt) err("comparison", "a comparison is wrong for %s and %s", text(ks[i]).c_str(), text(ks[j]).c_str());
      if (settle()) return;
    }
  }
  R.counts["replays"] += R.cfg_states[name];
}
void go() {
  focus({"life-"});
#if PART == 1
  pairs<Cfg<TF, 2, 3>>("pairs Trk 2,3", 6, 7);
#elif PART == 2
  pairs<Cfg<TF, 1, 3>>("pairs Trk 1,3", 8, 10);
#elif PART == 3
  pairs<Cfg<uint32_t, 3, 3>>("pairs u32 3,3", 7, 9);
  pairs<Cfg<TM, 4, 3>>("pairs move-only 4,3", 7, 9);
#elif PART == 4
  pairs<Cfg<uint8_t, 2, 3, A_STATE>>("unequal allocators u8 2,3", 6, 7, 1, 2);
  pairs<StdCfg<uint64_t, 2, 3>>("std::allocator u64 2,3", 5, 6);
  pairs<Cfg<TC, 5, 4>>("pairs copy-only 5,4", 8, 10);
#elif PART == 5
  pairs_from<Cfg<TF, 4, 4>>("large pairs Trk 4,4", fills({9, 20, 21, 40}));
  pairs_from<Cfg<uint32_t, 2, 3>>("large pairs u32 2,3", fills({14, 22, 60, 61}));
  pairs_from<Cfg<uint64_t, 128, 47, 0, 1024, 768>>("default u64", fills({20, 128, 129, 300}));
  pairs_from<Cfg<uint8_t, 1024, 47, 0, 1024, 768>>("default u8", fills({1024, 3000}, false));
#elif PART == 6
  // zero of either sign is one value; a field that does not count
  pairs<Cfg<float, 2, 3>>("pairs signed zeros 2,3", 6, 7);
  pairs<Cfg<Loose, 3, 3>>("pairs loose 3,3", 7, 9);
  pairs<Cfg<Strict, 2, 3>>("pairs strict 2,3", 5, 6);
  pairs<Cfg<int32_t, 2, 3>>("pairs signed 2,3", 6, 7);
  pairs_from<Cfg<Loose, 4, 4>>("large pairs loose 4,4", fills({9, 20, 40}));
#elif PART == 7
  pairs_from<Cfg<uint32_t, 64, 47, 0, 256, 768>>("long pairs u32", {{{'B', 65536, 0}}, {{'B', 66000, 0}}});
#elif PART == 8
  unordered<double, 2, 3>("unordered double 2,3", R.thorough() ? 6 : 5);
  unordered<float, 3, 3>("unordered float 3,3", 5);
#endif
}
MC_MAIN(go())
