// A small explorer in plain C++11, for builds the other explorers cannot be compiled in: every reachable
// tree up to a bound, every operation in each of them, compared with std::vector.  The digest of all that
// was observed (contents, positions, heights, requests to the allocator) must not differ between builds.
#include <boost/segmented_tree/seq.hpp>
#include <cstdio>
#include <cstdlib>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>

static std::string g_out, g_cfg, g_only_cfg, g_only_hist, g_op, g_hist;
static unsigned long long g_states, g_ops, g_checks, g_edges, g_digest, g_asked;
static std::map<std::string, unsigned long long> g_per, g_digests;
static void write(const char* status, const char* key, const char* msg) {
  FILE* f = fopen(g_out.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"status\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"cfg\":\"%s\",\"hist\":\"%s\",\"op\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"checks\":%llu,"
             "\"truncated\":false,\"wall\":0,\"counts\":{\"edges\":%llu,\"replays\":%llu},\"outcomes\":{},\"known\":{},\"samples\":[],\"cfg_states\":{",
          status, key, msg, g_cfg.c_str(), g_hist.c_str(), g_op.c_str(), g_states, g_ops, g_checks, g_edges, g_states);
  bool c = false;
  for (auto& k : g_per) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", k.first.c_str(), k.second); c = true; }
  fprintf(f, "},\"digests\":{"); c = false;
  for (auto& k : g_digests) { fprintf(f, "%s\"%s\":\"%016llx\"", c ? "," : "", k.first.c_str(), k.second); c = true; }
  fprintf(f, "}}\n"); fclose(f);
}
static void fail(const char* msg) {
  write("violation", "result", msg);
  fprintf(stderr, "VIOL %s: cfg %s hist %s op %s\n", msg, g_cfg.c_str(), g_hist.c_str(), g_op.c_str());
  _exit(1);
}
static void on_signal(int s) { write("violation", "crash", s == SIGALRM ? "no end" : "fatal signal"); _exit(1); }
static void mix(unsigned long long v) { g_digest = (g_digest ^ v) * 0x9E3779B97F4A7C15ull; g_digest ^= g_digest >> 29; }

template <class T> struct Counting {
  typedef T value_type;
  Counting() {}
  template <class U> Counting(const Counting<U>&) {}
  T* allocate(std::size_t n) { ++g_asked; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
};
template <class T, class U> bool operator==(const Counting<T>&, const Counting<U>&) { return true; }
template <class T, class U> bool operator!=(const Counting<T>&, const Counting<U>&) { return false; }

template <class T> T mk(int v) { return T(v); }
template <> std::string mk<std::string>(int v) { char b[24]; sprintf(b, "%08d", v); return b; }
static long num(const std::string& s) { return atol(s.c_str()); }
template <class T> long num(const T& v) { return long(v); }

struct Edit { char k; int a, b; };
typedef std::vector<Edit> Hist;
struct Keys { std::string& k; void operator()(unsigned long long v) { k += char(v); k += char(v >> 8); } };
template <class S> auto key(const S& c, std::string& k, int) -> decltype(c.verify_shape(std::declval<Keys&>()), void()) { Keys f{k}; c.verify_shape(f); }
template <class S> void key(const S& c, std::string& k, long) {
  k += char(c.height());
  for (std::size_t p = 0; p < c.size();) { auto it = c.nth(p); k += char(it.end() - it.begin()); p += it.end() - it.begin(); }
}
template <class S> struct World {
  typedef typename S::value_type T;
  typedef std::vector<T> V;
  static void make(S& c, const Hist& h) {
    for (auto& e : h) if (e.k == 'I') c.insert(c.nth(e.a), mk<T>(7)); else if (e.k == 'B') for (int i = 0; i < e.a; ++i) c.push_back(mk<T>(7)); else c.erase(c.nth(e.a), c.nth(e.b));
    int i = 0; for (auto& x : c) x = mk<T>(10 + i++);
  }
  static void same(S& c, const V& m, bool all) {
    const S& k = c; ++g_checks;
    if (c.size() != m.size() || c.empty() != m.empty()) fail("size");
    std::size_t i = 0;
    for (auto it = k.begin(); it != k.end(); ++it, ++i) { if (i >= m.size() || !(*it == m[i])) fail("contents"); mix(num(*it)); }
    if (i != m.size()) fail("iteration");
    mix(c.height()); mix(c.size());
    if (!all) return;
    for (auto it = k.end(); i > 0;) { --it; --i; if (!(*it == m[i]) || !(k[i] == m[i]) || !(k.at(i) == m[i]) || k.index_of(it) != i) fail("access"); }
    i = m.size(); for (auto it = k.rbegin(); it != k.rend(); ++it) if (!(*it == m[--i])) fail("reverse");
    std::string s; key(c, s, 0); for (char x : s) mix((unsigned char)x);
  }
  template <class F> static void op(const Hist& h, const char* name, long a, long b, long c3, V m, F f) {
    char t[80]; sprintf(t, "%s %ld %ld %ld", name, a, b, c3); g_op = t; alarm(60);
    S c; make(c, h);
    unsigned long long before = g_asked;
    long r = f(c, m);
    mix(g_asked - before); mix(r);
    ++g_ops;
    same(c, m, false);
  }
  static long at(S& c, typename S::iterator it, long want) { long r = long(c.index_of(it)); if (r != want) fail("returned position"); return r; }
  static void visit(const Hist& h) {
    S c0; make(c0, h);
    V m0(c0.begin(), c0.end()); const long n = long(m0.size());
    g_op = "state"; ++g_states; ++g_per[g_cfg]; same(c0, m0, true);
    const T x = mk<T>(5000);
    auto by = [](const T& p, const T& q) { return num(p) % 3 < num(q) % 3; };
    for (long p = 0; p <= n; ++p) {
      op(h, "insert", p, 0, 0, m0, [&](S& c, V& m) { m.insert(m.begin() + p, x); return at(c, c.insert(c.nth(p), x), p); });
      op(h, "emplace", p, 0, 0, m0, [&](S& c, V& m) { m.insert(m.begin() + p, x); return at(c, c.emplace(c.nth(p), x), p); });
      op(h, "insert moved", p, 0, 0, m0, [&](S& c, V& m) { T y(x); m.insert(m.begin() + p, x); return at(c, c.insert(c.nth(p), std::move(y)), p); });
      for (long k = 0; k <= 4; ++k) op(h, "insert count", p, k, 0, m0, [&](S& c, V& m) { m.insert(m.begin() + p, k, x); return at(c, c.insert(c.nth(p), k, x), p); });
      for (long k = 0; k <= 4; ++k) op(h, "insert range", p, k, 0, m0, [&](S& c, V& m) { V s; for (long i = 0; i < k; ++i) s.push_back(mk<T>(600 + i)); m.insert(m.begin() + p, s.begin(), s.end()); return at(c, c.insert(c.nth(p), s.begin(), s.end()), p); });
      op(h, "splice", p, 0, 0, m0, [&](S& c, V& m) { S d; V s; for (int i = 0; i < 5; ++i) { d.push_back(mk<T>(700 + i)); s.push_back(mk<T>(700 + i)); } m.insert(m.begin() + p, s.begin(), s.end()); c.splice(c.nth(p), d); if (!d.empty()) fail("spliced from"); return 0l; });
      for (long e = 0; e < n; ++e) op(h, "insert own", p, e, 0, m0, [&](S& c, V& m) { T y(m[e]); m.insert(m.begin() + p, y); return at(c, c.insert(c.nth(p), c[e]), p); });
      for (long q = p; q <= n; ++q) {
        op(h, "erase range", p, q, 0, m0, [&](S& c, V& m) { m.erase(m.begin() + p, m.begin() + q); return at(c, c.erase(c.nth(p), c.nth(q)), p); });
        op(h, "splice range", p, q, 0, m0, [&](S& c, V& m) { S d; V s(m.begin() + p, m.begin() + q); m.erase(m.begin() + p, m.begin() + q); d.splice(d.end(), c, c.nth(p), c.nth(q)); same(d, s, false); return 0l; });
        auto a = c0.nth(p), b = c0.nth(q); auto a2 = a; a2 += q - p; auto b2 = b; b2 -= q - p;
        if (a2 != b || b2 != a || b - a != q - p || a + (q - p) != b || b - (q - p) != a || (a < b) != (p < q) || (a >= b) != (p >= q)) fail("arithmetic");
      }
      if (p < n) {
        op(h, "erase", p, 0, 0, m0, [&](S& c, V& m) { m.erase(m.begin() + p); return at(c, c.erase(c.nth(p)), p); });
        op(h, "remove own", p, 0, 0, m0, [&](S& c, V& m) { m.erase(m.begin() + p); c.remove(c[p]); return 0l; });
      }
    }
    op(h, "push_front", 0, 0, 0, m0, [&](S& c, V& m) { m.insert(m.begin(), x); c.push_front(x); return 0l; });
    op(h, "push_back", 0, 0, 0, m0, [&](S& c, V& m) { m.push_back(x); c.push_back(x); return 0l; });
    if (n) op(h, "pops", 0, 0, 0, m0, [&](S& c, V& m) { m.erase(m.begin()); c.pop_front(); if (!m.empty()) { m.pop_back(); c.pop_back(); } return 0l; });
    for (long k = 0; k <= n + 4; ++k) {
      op(h, "assign count", k, 0, 0, m0, [&](S& c, V& m) { m.assign(k, x); c.assign(k, x); return 0l; });
      op(h, "assign range", k, 0, 0, m0, [&](S& c, V& m) { V s; for (long i = 0; i < k; ++i) s.push_back(mk<T>(600 + i)); m = s; c.assign(s.begin(), s.end()); return 0l; });
      op(h, "resize", k, 0, 0, m0, [&](S& c, V& m) { m.resize(k); c.resize(k); return 0l; });
      op(h, "resize value", k, 0, 0, m0, [&](S& c, V& m) { m.resize(k, x); c.resize(k, x); return 0l; });
    }
    op(h, "clear", 0, 0, 0, m0, [&](S& c, V& m) { m.clear(); c.clear(); return 0l; });
    op(h, "reverse", 0, 0, 0, m0, [&](S& c, V& m) { m = V(m.rbegin(), m.rend()); c.reverse(); return 0l; });
    op(h, "sort", 0, 0, 0, m0, [&](S& c, V& m) { std::stable_sort(m.begin(), m.end(), by); c.sort(by); return 0l; });
    op(h, "merge", 0, 0, 0, m0, [&](S& c, V& m) { V s; S d; for (int i = 0; i < 5; ++i) { s.push_back(mk<T>(9 + 2 * i)); d.push_back(mk<T>(9 + 2 * i)); } V r; std::merge(m.begin(), m.end(), s.begin(), s.end(), std::back_inserter(r)); m = r; c.merge(d); return 0l; });
    op(h, "remove_if", 0, 0, 0, m0, [&](S& c, V& m) { auto odd = [](const T& t) { return num(t) % 2 != 0; }; V r; for (auto& t : m) if (!odd(t)) r.push_back(t); m = r; c.remove_if(odd); return 0l; });
    op(h, "unique", 0, 0, 0, m0, [&](S& c, V& m) { V r; for (auto& t : m) if (r.empty() || num(r.back()) / 3 != num(t) / 3) r.push_back(t); m = r; c.unique([](const T& p, const T& q) { return num(p) / 3 == num(q) / 3; }); return 0l; });
    op(h, "copies", 0, 0, 0, m0, [&](S& c, V& m) {
      S d(c); same(d, m, false); S e; e.push_back(x); e = c; same(e, m, false);
      if (!(d == c) || d != c || d < c || d > c || !(d <= c) || !(d >= c)) fail("comparison");
      e.push_back(x); if (e == c || !(c < e) || !(e > c) || c >= e || e <= c) fail("comparison");
      if (!m.empty()) { d.pop_back(); d.push_front(mk<T>(1)); if (d == c || !(d < c)) fail("comparison"); }
      return 0l; });
    op(h, "moves", 0, 0, 0, m0, [&](S& c, V& m) {
      S d(std::move(c)); same(d, m, false); if (!c.empty()) fail("moved from");
      c.push_back(x); c = std::move(d); same(c, m, false); S e; e.push_back(x); swap(c, e); same(e, m, false); c.swap(e); if (e.size() != 1) fail("swap");
      return 0l; });
  }
  static void explore(const char* name, int maxn, std::vector<Hist> todo, bool grow) {
    if (!g_only_cfg.empty() && g_only_cfg != name) return;
    g_cfg = name; g_digest = 1;
    std::set<std::string> seen;
    auto text = [](const Hist& h) { std::string s; for (auto& e : h) { char b[32]; sprintf(b, e.k == 'E' ? "%s%c%d,%d" : "%s%c%d", s.empty() ? "" : " ", e.k, e.a, e.b); s += b; } return s; };
    if (!g_only_cfg.empty()) {
      Hist h; const char* p = g_only_hist.c_str();
      while (*p) { if (*p == ' ') { ++p; continue; } Edit e = {*p, 0, 0}; char* q; e.a = int(strtol(p + 1, &q, 10)); if (*q == ',') e.b = int(strtol(q + 1, &q, 10)); p = q; h.push_back(e); }
      todo.assign(1, h); grow = false;
    }
    for (std::size_t i = 0; i < todo.size(); ++i) {
      Hist h = todo[i]; g_hist = text(h);
      { S c; make(c, h); std::string k; key(c, k, 0); if (!seen.insert(k).second) continue; }
      visit(h);
      if (!grow) continue;
      int n = 0; for (auto& e : h) n += e.k == 'I' ? 1 : e.k == 'B' ? e.a : e.a - e.b;
      auto next = [&](Edit e) { Hist g(h); g.push_back(e); S c; make(c, g); ++g_edges; std::string k; key(c, k, 0); if (!seen.count(k)) todo.push_back(g); };
      if (n < maxn) for (int p = 0; p <= n; ++p) next(Edit{'I', p, 0});
      for (int p = 0; p < n; ++p) next(Edit{'E', p, p + 1});
    }
    g_digests[name] = g_digest;
  }
};
int main(int argc, char** argv) {
  bool thorough = false;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--tier") thorough = v == "thorough"; else if (k == "--out") g_out = v; else if (k == "--cfg") g_only_cfg = v; else if (k == "--hist") g_only_hist = v;
  }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
  using boost::segmented_tree::seq;
  const int more = thorough ? 3 : 0;
  World<seq<int, std::allocator<int>, 8, 0>>::explore("int 2,3", 9 + more, {Hist()}, true);
  World<seq<unsigned, Counting<unsigned>, 4, 0>>::explore("unsigned 1,3", 15 + more, {Hist()}, true);
  World<seq<std::string, std::allocator<std::string>, 3 * sizeof(std::string), 80>>::explore("string 3,4", 13 + more, {Hist()}, true);
  World<seq<double, Counting<double>, 32, 0>>::explore("double 4,3", 13 + more, {Hist()}, true);
  std::vector<Hist> tall;
  for (int n : {27, 40}) { tall.push_back({{'B', n, 0}}); tall.push_back({{'B', n + 20, 0}, {'E', 5, 25}}); }
  World<seq<short, Counting<short>, 2, 0>>::explore("tall short 1,3", 0, tall, false);
  write("ok", "", "");
  _exit(0);
}
