// Every failure point of an operation: the operation is run once for each point at which it
// asks the environment for something, with exactly that request failing.
#pragma once
#include "iters.hpp"
namespace mc {
// A sequence after a failure: live elements only, the same ones whichever way it is read.
template <class S> bool sound(S& c, const char* which, size_t cap) {
  using T = typename S::value_type;
  size_t n = c.size();
  if (n > cap) { err("unsound", "after the failure the %s sequence claims %zu elements, at most %zu are possible", which, n, cap); return false; }
  if (c.empty() != (n == 0)) { err("unsound", "empty() disagrees with size() in the %s sequence", which); return false; }
  Vec v; v.reserve(n);
  auto it = c.begin(); auto e = c.end();
  for (; it != e && v.size() <= n; ++it) v.push_back(val(*it));
  if (g_err.set) return false;
  if (v.size() != n || it != e) { err("unsound", "after the failure iteration meets another number of elements than size() = %zu in the %s sequence", n, which); return false; }
  for (size_t i = n; i-- > 0;) { --it; if (val(*it) != v[i]) { err("unsound", "after the failure reading backwards differs at %zu in the %s sequence", i, which); return false; } }
  for (size_t i = 0; i < n; ++i) if (val(c[i]) != v[i]) { err("unsound", "after the failure [%zu] differs from iteration in the %s sequence", i, which); return false; }
  return true;
}
// It can be edited at every kind of place and emptied.
template <class C> bool usable_now(typename C::Seq& c, const char* which) {
  using T = typename C::T;
  Vec v; for (auto it = c.begin(); it != c.end(); ++it) v.push_back(val(*it));
  size_t n = v.size();
  c.insert(c.nth(n / 2), mk<T>(77)); v.insert(v.begin() + n / 2, fold<T>(77));
  c.push_back(mk<T>(78)); v.push_back(fold<T>(78));
  c.push_front(mk<T>(79)); v.insert(v.begin(), fold<T>(79));
  size_t i = 0;
  for (auto it = c.begin(); it != c.end() && i < v.size(); ++it, ++i) if (val(*it) != v[i]) { err("unusable", "an insertion after the failure gives wrong contents in the %s sequence", which); return false; }
  if (i != v.size() || c.size() != v.size()) { err("unusable", "an insertion after the failure gives a wrong size in the %s sequence", which); return false; }
  if (n <= 60) { while (!c.empty() && i-- > n / 2) c.erase(c.nth(c.size() / 2)); }
  if (c.size() > 2) c.erase(c.begin(), c.nth(c.size() - 2));
  return true;
}
// Destroys the containers and looks for leaks (in a world that is restored afterwards).
template <class C> void no_leaks(std::initializer_list<int> slots, const char* when) {
  using S = typename C::Seq;
  for (int i : slots) Maker<C>::at(i).~S();
  World& w = W();
  if (w.live_blocks[kSeg] || w.live_blocks[kNode] || w.live_blocks[kOther])
    err("leak", "%s, and after destruction, %lld element blocks and %lld index nodes are still held", when, (long long)w.live_blocks[kSeg], (long long)w.live_blocks[kNode]);
  if (w.live_elems) err("leak", "%s, and after destruction, %lld elements are still alive", when, (long long)w.live_elems);
}
// Runs the operation with point k failing; true when it failed.
template <class C> bool run_fault(State<C>& s, const Op<typename C::Seq>& o, uint32_t mask, int64_t k) {
  op_name(o);
  snprintf(R.extra, sizeof R.extra, "(failing at request %lld)", (long long)k);
  auto& c = s.fresh();
  R.transitions++;
  faults_on(mask, k);
  bool threw = false;
  try { o.run(c); } catch (const Fault&) { threw = true; } catch (...) { threw = true; err("exception", "another exception than the one that was raised came out"); }
  faults_off();
  return threw;
}
// How many requests the operation makes.
template <class C> int64_t count_faults(State<C>& s, const Op<typename C::Seq>& o, uint32_t mask) {
  op_name(o);
  auto& c = s.fresh();
  faults_on(mask, -1);
  o.run(c);
  int64_t n = W().fault_count;
  faults_off();
  if (o.flags & O_CTOR) { using S = typename C::Seq; Maker<C>::at(2).~S(); }
  return n;
}
// Every operation of the catalogue, failing at each request it makes of its environment, one at a time;
// after(op) then looks at what is left (the edited sequence in slot 0, the second of a pair in slot 1).
template <class T> constexpr uint32_t anything() {
  return F_ALLOC | F_COPY | F_VALUE | F_ASSIGN | F_PRED | F_ITER | (std::is_nothrow_move_constructible<T>::value ? 0 : F_MOVE) | (std::is_nothrow_move_assignable<T>::value ? 0 : F_MASSIGN);
}
template <class C, class Fn> void each_failure(State<C>& s, const Op<typename C::Seq>& o, Fn after) {
  constexpr uint32_t mask = anything<typename C::T>();
  int64_t n = count_faults<C>(s, o, mask);
  g_err.set = false;
  for (int64_t k = 0; k < n; ++k) {
    if (n > 90 && k > 30 && k < n - 30 && k % 7) continue;     // (long operations on large trees)
    if (!run_fault<C>(s, o, mask, k)) err("swallowed", "the exception did not come out");
    else after(o);
    if (settle()) return;
  }
}
template <class C, class Fn> void every_failure(State<C>& s, Fn after) {
  auto f = [&](const Op<typename C::Seq>& o) { each_failure<C>(s, o, after); };
  if (s.pair) { ops_pair<C>(s, f); return; }
  ops_single<C>(s, f);
  ops_erase1<C>(s, f);
  if (s.n <= 12) {
    ops_erase_range<C>(s, f);
    ops_insert_bulk<C>(s, {1, 2, 4}, f);
    ops_assign<C>(s, {0, 1, s.n / 2, s.n + 1, s.n + 3}, f);
    ops_algo<C>(s, f);
    ops_ctor<C>(s, {0, 1, C::segmax + 1}, f);
  } else if (s.n <= 40)
    ops_insert_bulk<C>(s, {C::segmax + 1}, f);
}
}  // namespace mc
