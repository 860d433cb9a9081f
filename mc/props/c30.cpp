// parts: 7
// rule: the random engine is replaced by one whose every outcome is enumerated (all draw sequences for small ranges; all 2^32 draws for selected bounds); every workload of up to 7 insertions is applied and erased on every kind of container; the checksum is compared with a CRC-64 of the bytes for every length up to 40 and every flipped bit; the traversal sums run on every state of a bounded space at every stride, on values that reveal exactly which elements were visited
// assume: bounds lie within the range of the engine; workloads hold at least one element; strides are positive (the helpers' own preconditions)
// C30: workload helpers generate valid positions and check what they claim.
#include "../explore.hpp"
#include <deque>
#include <limits>
#include <functional>
#include <sstream>
#include <stdexcept>
namespace mc {
// The choices of the environment: a path in the tree of engine outcomes, extended on demand.
struct Chooser {
  std::vector<std::pair<uint32_t, uint32_t>> path; size_t at = 0; size_t limit = SIZE_MAX;
  struct TooDeep {};
  uint32_t next(uint32_t n) {
    if (at == path.size()) { if (at >= limit) throw TooDeep{}; path.push_back({0, n}); }
    return path[at++].first;
  }
  bool advance() {                                 // to the next path; false when all are done
    path.resize(at);
    while (!path.empty()) { if (++path.back().first < path.back().second) { at = 0; return true; } path.pop_back(); }
    at = 0;
    return false;
  }
};
inline Chooser g_choice;
}
#if PART == 2
// Stand-ins for the engines of Boost.Random, whose outcomes are enumerated.
#define BOOST_RANDOM_INDEPENDENT_BITS_HPP
#define BOOST_RANDOM_MERSENNE_TWISTER_HPP
#define BOOST_RANDOM_SEED_SEQ_HPP
#ifndef RANGE
#define RANGE 9
#endif
namespace boost { namespace random {
struct seed_seq { template <class T> seed_seq(std::initializer_list<T>) {} };
struct mt19937 {
  using result_type = uint32_t; static constexpr result_type min() { return 0; } static constexpr result_type max() { return RANGE - 1; }
  template <class Q> explicit mt19937(Q&) {} mt19937() {}
  uint32_t operator()() { return mc::g_choice.next(RANGE); }
};
template <class E, size_t W, class T> struct independent_bits_engine {
  using result_type = T; T n = 0; template <class Q> explicit independent_bits_engine(Q&) {}
  static constexpr T min() { return 0; } static constexpr T max() { return T(-1); }
  T operator()() { return T(++n * 3); }
};
} }
#endif
#include "common.hpp"
#include "iterator.hpp"
#include "range.hpp"
#include "single.hpp"
#include BENCH_COMMON_HPP
using namespace mc;
template <class V_, V_ Lo, V_ Hi> struct Small {     // an engine with the range [Lo, Hi]
  using result_type = V_; static constexpr V_ min() { return Lo; } static constexpr V_ max() { return Hi; }
  V_ operator()() { return V_(Lo + g_choice.next(uint32_t(Hi - Lo) + 1)); }
};
// All outcomes of up to two draws: each result carries the same probability.
template <class E, class Res> void bounded(const char* nm, Res top) {
  R.cfg = nm;
  uint64_t range = uint64_t(E::max()) - uint64_t(E::min()) + 1;
  for (uint64_t b = 1; b <= range && b <= uint64_t(top); b += 1) {
    set_op("bounded_rand", long(b));
    size_t depth = range <= 300 && b > 1 ? 2 : 1;
    std::vector<uint64_t> mass(b, 0); uint64_t open = 0;
    g_choice = Chooser(); g_choice.limit = depth;
    R.states++; R.cfg_states[nm]++;
    do {
      g_choice.at = 0; R.transitions++; R.progress = R.progress + 1;
      uint64_t r; size_t used;
      E e;
      try { r = uint64_t(bounded_rand(e, Res(b))); used = g_choice.at; } catch (const Chooser::TooDeep&) { open++; continue; }
      if (r >= b) { err("bound", "bounded_rand gave %llu for the bound %llu", (unsigned long long)r, (unsigned long long)b); break; }
      uint64_t w = 1; for (size_t i = used; i < depth; ++i) w *= range;
      mass[r] += w;
    } while (g_choice.advance());
    for (uint64_t i = 1; i < b; ++i) if (mass[i] != mass[0]) { err("uniform", "for the bound %llu the result %llu has weight %llu, the result 0 has %llu", (unsigned long long)b, (unsigned long long)i, (unsigned long long)mass[i], (unsigned long long)mass[0]); break; }
    if (!mass[0]) err("uniform", "no draw is accepted for the bound %llu", (unsigned long long)b);
    if (settle()) return;
  }
}
struct Wide { using result_type = uint32_t; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return UINT32_MAX; } uint32_t v = 0; int used = 0; uint32_t operator()() { switch (used++) { case 0: return v; case 1: return UINT32_MAX; case 2: return 0; default: throw Chooser::TooDeep{}; } } };   // later draws only end the rejection
// All 2^32 outcomes of the first draw.
template <class Res> void every32(const char* nm, uint64_t b) {
  R.cfg = nm; set_op("bounded_rand", long(b)); R.states++; R.cfg_states[nm]++;
  std::vector<uint32_t> n(b <= (1u << 20) ? b : 0, 0); uint64_t taken = 0;
  // larger bounds: each result may come up equally often; count by blocks of results
  std::vector<uint64_t> blk(n.empty() ? 4096 : 0, 0);
  for (uint64_t v = 0; v <= UINT32_MAX; ++v) {
    if (!(v & 0xFFFFFF)) R.progress = R.progress + 1;
    Wide e; e.v = uint32_t(v);
    uint64_t r;
    try { r = uint64_t(bounded_rand(e, Res(b))); } catch (const Chooser::TooDeep&) { continue; }
    if (e.used != 1) continue;
    if (r >= b) { err("bound", "bounded_rand gave %llu for the bound %llu", (unsigned long long)r, (unsigned long long)b); settle(); return; }
    taken++; if (!n.empty()) n[r]++; else blk[(r * 4096) / b]++;
  }
  R.transitions += uint64_t(1) << 32;
  if (!taken || taken % b) err("uniform", "for the bound %llu, %llu of 2^32 draws are accepted, no multiple of the bound", (unsigned long long)b, (unsigned long long)taken);
  for (uint64_t i = 0; i < n.size(); ++i) if (n[i] != n[0]) { err("uniform", "for the bound %llu the results 0 and %llu are not equally likely", (unsigned long long)b, (unsigned long long)i); break; }
  for (uint64_t i = 0; i < blk.size(); ++i) { uint64_t lo = (b * i + 4095) / 4096, hi = (b * (i + 1) + 4095) / 4096; if (blk[i] != (hi - lo) * (taken / b)) { err("uniform", "for the bound %llu the results from %llu to %llu are not as likely as others", (unsigned long long)b, (unsigned long long)lo, (unsigned long long)hi); break; } }
  settle();
}
// A container that reports positions beyond its end.
template <class T> struct Checked : std::vector<T> {
  using base = std::vector<T>; using iterator = typename base::iterator; using size_type = size_t;
  iterator nth(size_t p) { if (p > this->size()) { err("position", "position %zu of a container of %zu elements was asked for", p, this->size()); p = this->size(); } return this->begin() + ptrdiff_t(p); }
  iterator erase(iterator i) { if (i == this->end()) { err("position", "the end of the container was erased"); return i; } return base::erase(i); }
  iterator erase(iterator i, iterator j) { if (j < i || j > this->end()) { err("position", "an invalid range was erased"); return i; } return base::erase(i, j); }
};
template <class V_> std::vector<uint64_t> listed(const V_& c) { std::vector<uint64_t> r; for (auto it = c.begin(); it != c.end(); ++it) r.push_back(uint64_t(*it)); return r; }
template <class Cont, class T> bool workload(const char* nm, const insertion_data<T>& d, size_t size, bool single) {
  R.transitions++;
  std::vector<uint64_t> ex;
  for (size_t i = 0; i < d.indexes.size(); ++i) ex.insert(ex.begin() + ptrdiff_t(std::min(d.indexes[i], ex.size())), d.ordered.begin() + ptrdiff_t(i * size), d.ordered.begin() + ptrdiff_t((i + 1) * size));
  set_op(single ? "insert_single" : "insert_range"); snprintf(R.extra, sizeof R.extra, "%s, indexes %s, size %zu", nm, show<uint64_t>(Vec(d.indexes.begin(), d.indexes.end())).c_str(), size);
  Cont c;
  if (single) insert_single(c, d); else insert_range(c, d);
  if (listed(c) != ex) err("workload", "the inserted elements are not where the workload says");
  if (settle()) return false;
  R.op = single ? "erase_single" : "erase_range";
  if (single) erase_single(c, d); else erase_range(c, d);
  auto left = listed(c);
  if (left.size() != 1 || left[0] != uint64_t(d.ordered[0])) err("workload", "after erasing the workload %zu elements are left, expected only its first", left.size());
  return !settle();
}
template <class T> using SmallSeq = boost::segmented_tree::seq<T, std::allocator<T>, 2 * sizeof(T), 0>;
template <class T> bool all_containers(const insertion_data<T>& d, size_t size, bool single) {
  return workload<Checked<T>>("checked vector", d, size, single) && workload<SmallSeq<T>>("seq", d, size, single) && workload<std::vector<T>>("vector", d, size, single) && workload<std::deque<T>>("deque", d, size, single);
}
template <class T> bool valid(const insertion_data<T>& d, size_t count, size_t size) {
  R.checks++;
  if (d.indexes.size() != count || d.ordered.size() != count * size) { err("workload", "a workload of %zu x %zu has %zu positions and %zu elements", count, size, d.indexes.size(), d.ordered.size()); return false; }
  for (size_t i = 0; i < count; ++i) if (d.indexes[i] > i * size) { err("position", "position %zu of insertion %zu is beyond the %zu elements there are then", d.indexes[i], i, i * size); return false; }
  return true;
}
template <class C> struct Sums {
  using S = typename C::Seq;
  static void visit(State<C>& s) {
    size_t n = s.n; S& c = s.fresh(); const S& k = c;
    // one bit per element shows which were visited and how often
    size_t groups = (n + 31) / 32;
    auto check = [&](const char* nm, size_t d, auto run, auto in) {
      for (size_t g = 0; g < groups + (n == 0); ++g) {
        size_t i = 0; uint64_t ex = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) { *it = i / 32 == g ? uint64_t(1) << (2 * (i % 32)) : 0; if (in(i)) ex += *it; }
        set_op(nm, long(d)); R.transitions++; R.checks++; R.progress = R.progress + 1;
        if (run() != ex) err("stride", "other elements were visited than those at the stated stride (%zu elements)", n);
        if (settle()) return false;
      }
      return true;
    };
    if (!check("accumulate_forward", 0, [&] { return accumulate_forward(k); }, [](size_t) { return true; })) return;
    if (!check("accumulate_backward", 0, [&] { return accumulate_backward(k); }, [](size_t) { return true; })) return;
    for (size_t d = 1; d <= (n > 200 ? 40 : n + 2); ++d) {
      if (!check("accumulate_forward_by", d, [&] { return accumulate_forward_by(k, d); }, [&](size_t i) { return i % d == 0 && i + d <= n; })) return;
      if (!check("accumulate_backward_by", d, [&] { return accumulate_backward_by(k, d); }, [&](size_t i) { return (n - i) % d == 0; })) return;
    }
  }
};
// The checksum of a result: the CRC-64 of all its bytes, computed here bit by bit.
template <class T> uint64_t crc64(const std::vector<T>& v) {
  uint64_t r = 0; const unsigned char* p = reinterpret_cast<const unsigned char*>(v.data());
  for (size_t i = 0; i < v.size() * sizeof(T); ++i) { r ^= uint64_t(p[i]) << 56; for (int b = 0; b < 8; ++b) r = r >> 63 ? r << 1 ^ 0x42F0E1EBA9EA3693ULL : r << 1; }
  return r;
}
template <class T> void checksums(const char* name) {
  R.cfg = name; if (!R.replay_cfg.empty() && R.replay_cfg != R.cfg) return;
  std::vector<T> v;
  for (size_t n = 0; n <= 40; ++n) {
    R.states++; R.cfg_states[name]++; set_op("make_checksum_unsigned", long(n));
    uint64_t whole = make_checksum_unsigned(v); R.transitions++;
    if (whole != crc64(v)) err("checksum", "the checksum of %zu elements is %llx, that of their bytes %llx", n, (unsigned long long)whole, (unsigned long long)crc64(v));
    std::map<uint64_t, size_t> seen; seen[whole] = 0;
    for (size_t i = 0; i < n; ++i) for (unsigned b = 0; b < 8 * sizeof(T); ++b) {
      v[i] = T(v[i] ^ T(T(1) << b)); uint64_t one = make_checksum_unsigned(v); R.transitions++;
      if (one != crc64(v) || !seen.emplace(one, i).second) err("checksum", "bit %u of element %zu of %zu: the checksum does not tell the contents apart", b, i, n);
      v[i] = T(v[i] ^ T(T(1) << b));
      if (settle()) return;
    }
    v.push_back(T(0x9E3779B97F4A7C15ULL * (n + 1) >> 11));
    if (settle()) return;
  }
}
template <class T> bool throws(const T& a, const T& b) { try { verify(a, b); return false; } catch (const std::runtime_error&) { return true; } }
void go() {
#if PART == 1
  // 1: the bounds of random numbers
  bounded<Small<uint32_t, 0, 63>, size_t>("range 64, wide result", 64);
  bounded<Small<uint32_t, 1, 6>, size_t>("range 1 to 6", 6);
  bounded<Small<uint32_t, 3, 99>, size_t>("range 3 to 99", 97);
  bounded<Small<uint32_t, 0, 6>, uint32_t>("range 7, same result", 7);
  bounded<Small<uint32_t, 5, 17>, uint64_t>("range 5 to 17", 13);
  bounded<Small<uint64_t, 0, 30>, uint64_t>("range 31, 64 bits", 31);
  bounded<Small<uint16_t, 0, 127>, size_t>("range 128, 16-bit engine", 128);
  bounded<Small<uint32_t, 0, 4095>, size_t>("range 4096", 4096);
  if (R.thorough()) bounded<Small<uint32_t, 0, 255>, size_t>("range 256", 256);
  // verify()
  R.cfg = "verify";
  for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) {
    set_op("verify", a, b); R.transitions += 4;
    if (throws<int>(a, b) != (a != b) || throws<uint64_t>(uint64_t(a), uint64_t(b)) != (a != b) || throws<std::string>(std::to_string(a), std::to_string(b)) != (a != b) || throws<double>(a, b) != (a != b)) err("verify", "verify(%d,%d) does not tell equal from different", a, b);
    settle();
  }
  for (int i = 0; i < 64; ++i) for (int j = -1; j < 64; ++j) { set_op("verify bits", i, j); R.transitions++; uint64_t a = uint64_t(1) << i, b = j < 0 ? 0 : uint64_t(1) << j; if (throws<uint64_t>(a, b) != (a != b)) err("verify", "verify does not tell equal from different"); settle(); }
  R.states += 49; R.cfg_states["verify"] += 49;
  checksums<uint8_t>("checksum u8"); checksums<uint16_t>("checksum u16"); checksums<uint32_t>("checksum u32"); checksums<uint64_t>("checksum u64");
#elif PART == 2
  // 2: generated workloads, every outcome of the engine
  for (size_t size : {size_t(1), size_t(2), size_t(3)}) for (size_t count = 1; count <= (R.thorough() ? 6u : 5u); ++count) {
    if ((count - 1) * size + 1 > RANGE) continue;
    char b[60]; snprintf(b, sizeof b, "generated workloads %zu x %zu", count, size); R.cfg = b;
    std::map<std::vector<size_t>, uint64_t> seen; uint64_t open = 0;
    g_choice = Chooser(); g_choice.limit = count;      // one draw each; more only after rejections
    do {
      g_choice.at = 0; R.transitions++; R.progress = R.progress + 1;
      set_op("make_insertion_data_range", long(count), long(size));
      try {
        auto d = make_insertion_data_range<uint32_t>(count, size, 1);
        if (valid(d, count, size)) seen[d.indexes]++;
        if (settle()) return;
        if (size == 1) { set_op("make_insertion_data_single", long(count)); g_choice.at = 0; auto e = make_insertion_data_single<uint32_t>(count, 1); valid(e, count, 1); if (settle()) return; if (!all_containers(e, 1, true)) return; }
        if (!all_containers(d, size, false)) return;
      } catch (const Chooser::TooDeep&) { open++; }
    } while (g_choice.advance());
    uint64_t want = 1; for (size_t i = 0; i < count; ++i) want *= i * size + 1;
    if (seen.size() != want) err("uniform", "%zu of the %llu workloads of this size can come up", seen.size(), (unsigned long long)want);
    for (auto& kv : seen) if (kv.second != seen.begin()->second) { err("uniform", "workloads of the same size are not equally likely"); break; }
    settle();
    R.states += seen.size(); R.cfg_states[R.cfg] += seen.size();
  }
#elif PART == 3
  // 3: every workload
  for (size_t size = 1; size <= 3; ++size) for (size_t count = 1; count <= (size == 1 ? (R.thorough() ? 9u : 8u) : size == 2 ? 6u : 5u); ++count) {
    char b[60]; snprintf(b, sizeof b, "all workloads %zu x %zu", count, size); R.cfg = b;
    g_choice = Chooser();
    do {
      g_choice.at = 0; R.states++; R.cfg_states[b]++; R.progress = R.progress + 1;
      insertion_data<uint32_t> d;
      for (size_t i = 0; i < count; ++i) { d.indexes.push_back(g_choice.next(uint32_t(i * size + 1))); for (size_t j = 0; j < size; ++j) d.ordered.push_back(uint32_t(100 + i * size + j)); }
      if (!all_containers(d, size, false)) return;
      if (size == 1 && !all_containers(d, 1, true)) return;
    } while (g_choice.advance());
  }
  // with the real engine: what the stand-in stands for
  R.cfg = "real engine";
  for (uint32_t seed = 0; seed < 40; ++seed) for (size_t count : {size_t(1), size_t(2), size_t(50)}) {
    auto d = make_insertion_data_range<uint16_t>(count, 4, seed); auto e = make_insertion_data_single<uint64_t>(count, seed); auto f = make_insertion_data_single<uint8_t>(count, seed);
    set_op("real engine", long(seed), long(count)); R.states++;
    if (valid(d, count, 4) && valid(e, count, 1) && valid(f, count, 1)) { all_containers(d, 4, false); all_containers(e, 1, true); all_containers(f, 1, true); }
    if (settle()) return;
  }
#elif PART == 4
  // 4: strided sums
  { using C = Cfg<uint64_t, 1, 3>; Explorer<C> e; e.explore("sums 1,3", R.thorough() ? 30 : 24, Sums<C>::visit); }
  { using C = Cfg<uint64_t, 2, 3>; Explorer<C> e; e.explore("sums 2,3", R.thorough() ? 20 : 14, Sums<C>::visit); }
  { using C = Cfg<uint64_t, 3, 4>; Explorer<C> e; e.explore("sums 3,4", R.thorough() ? 26 : 18, Sums<C>::visit); }
  { using C = Cfg<uint64_t, 8, 6>; Explorer<C> e; e.explore_from("sums 8,6", fills({45, 70}), SIZE_MAX, 0, Sums<C>::visit); }
  { using C = Cfg<uint64_t, 128, 47, 0, 1024, 768>; Explorer<C> e; e.explore_from("sums default", fills({128, 300}), SIZE_MAX, 0, Sums<C>::visit); }
#elif PART == 5
  every32<size_t>("all 2^32 draws", 3);
  if (R.thorough()) for (uint64_t b : {uint64_t(1), uint64_t(6), uint64_t(10)}) every32<size_t>("all 2^32 draws", b);
#elif PART == 6
  every32<size_t>("all 2^32 draws", 1000003);
  if (R.thorough()) for (uint64_t b : {uint64_t(65537), uint64_t(1) << 31, uint64_t(2863311531)}) every32<size_t>("all 2^32 draws", b);
#elif PART == 7
  every32<uint32_t>("all 2^32 draws, 32-bit result", (uint64_t(1) << 31) + 1);
  if (R.thorough()) for (uint64_t b : {(uint64_t(1) << 32) - 1, uint64_t(1) << 32}) every32<size_t>("all 2^32 draws", b);
#endif
}
MC_MAIN(go())
