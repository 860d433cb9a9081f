// parts: 6
// minimal: base constfriendly
// rule: every const operation runs on every state with the whole memory of the container write-protected; every editing operation runs on every state with the memory of other sequences of the same type withdrawn; the program's static and thread-local storage is compared before and after each; and every editing operation is interrupted at every point at which it calls out, by complete edits of another sequence
// assume: operations of different threads on disjoint memory commute, so once no operation touches another sequence or shared state one schedule represents them all
// C26: const access writes nothing; separate sequences share nothing.
#include "../suite.hpp"
#include "../faults.hpp"
#include <link.h>
#include <set>
using namespace mc;
constexpr uintptr_t kIso = 0x300000000000ull; constexpr size_t kIsoSize = 64u << 20;
// Memory apart: what sequences with region 1 are made of.
struct Region { uint64_t used; };
inline Region& region() { return *reinterpret_cast<Region*>(kIso); }
inline void* region_alloc(size_t n) { uint64_t o = region().used; region().used += (n + 63) / 64 * 64; if (region().used > kIsoSize) { fprintf(stderr, "region full\n"); _exit(3); } return reinterpret_cast<char*>(kIso) + o; }
inline void region_init() { void* p = mmap(reinterpret_cast<void*>(kIso), kIsoSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != reinterpret_cast<void*>(kIso)) _exit(3); region().used = 4096; }
template <class U, class E> struct Iso {
  using value_type = U; uint32_t region1;
  Iso(uint32_t r = 0) noexcept : region1(r) {}
  template <class V> Iso(const Iso<V, E>& o) noexcept : region1(o.region1) {}
  static constexpr int kind = std::is_same<U, E>::value ? kSeg : kNode;
  U* allocate(size_t n) { return static_cast<U*>(region1 ? region_alloc(n * sizeof(U)) : arena_alloc(n, sizeof(U), kind, 0)); }
  void deallocate(U* p, size_t n) noexcept { if (!region1) arena_free(p, n, sizeof(U), kind, 0); }
  Iso select_on_container_copy_construction() const { return Iso(0); }
  friend bool operator==(const Iso& a, const Iso& b) { return a.region1 == b.region1; }
  friend bool operator!=(const Iso& a, const Iso& b) { return a.region1 != b.region1; }
};
template <class T_, size_t SegMax, size_t BaseMax, size_t SegTarget = SegMax * sizeof(T_), size_t BaseTarget = (BaseMax <= 3 ? 0 : 16 + 16 * BaseMax)> struct IsoCfg {
  using T = T_; using A = Iso<T, T>; using Seq = boost::segmented_tree::seq<T, A, SegTarget, BaseTarget>;
  static constexpr size_t segmax = SegMax, basemax = BaseMax, segtarget = SegTarget, basetarget = BaseTarget, segmin = (SegMax + 1) / 2, basemin = (BaseMax + 1) / 2;
  static constexpr int pol = 0; static constexpr bool rebuild = false;
};
// Static and thread-local storage of the program.
extern "C" char __data_start, _end;
struct Statics {
  std::vector<char> a, t; char* tls = nullptr; size_t tlen = 0;
  size_t len = size_t(&_end - &__data_start);
  Statics() {
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* me) -> int {
      auto* self = static_cast<Statics*>(me);
      if (i->dlpi_name && i->dlpi_name[0]) return 0;
      for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) { self->tls = static_cast<char*>(i->dlpi_tls_data); self->tlen = i->dlpi_phdr[k].p_memsz; }
      return 1;
    }, this);
    a.resize(len); t.resize(tlen);
  }
  void save() { memcpy(a.data(), &__data_start, len); if (tls) memcpy(t.data(), tls, tlen); }
  void compare() {
    // the watchdog may have struck in between
    auto live = [&](const volatile void* p, size_t n) { auto* q = static_cast<const char*>(const_cast<const void*>(p)); if (q >= &__data_start && q < &_end) memcpy(a.data() + (q - &__data_start), q, n); };
    live(&g_last_progress, sizeof g_last_progress); live(&g_stalled, sizeof g_stalled);
    if (memcmp(a.data(), &__data_start, len)) err("static", "the operation wrote static storage");
    else if (tls && memcmp(t.data(), tls, tlen)) err("static", "the operation wrote thread-local storage");
  }
};
inline uint64_t g_news;
template <class C> struct V {
  static constexpr int less = 3;
  using S = typename C::Seq; using T = typename C::T;
  static Statics& st() { static Statics* s = new Statics; return *s; }
  static std::set<std::string>& warm() { static auto* w = new std::set<std::string>; return *w; }
  struct Oth { std::vector<S*> s; std::vector<Vec> m; };
  static Oth& others() {
    static Oth* o = nullptr;
    if (!o) {
      o = new Oth;
      for (size_t n : {size_t(0), size_t(1), C::segmax + 1, 4 * C::segmax * C::basemax}) {
        if (n > 3000) n = 3000;
        S* s = new (region_alloc(sizeof(S))) S(Iso<T, T>(1));
        Vec m;
        for (size_t i = 0; i < n; ++i) { s->insert(s->nth(n ? i * 5 % (i + 1) : 0), mk<T>(uint32_t(i + 1))); }
        for (auto it = s->begin(), e = s->end(); it != e; ++it) m.push_back(val(*it));
        o->s.push_back(s); o->m.push_back(m);
      }
    }
    return *o;
  }
  static void shut(int prot) { mprotect(reinterpret_cast<void*>(kIso), (region().used + 4095) / 4096 * 4096, prot); }
  struct Shut { size_t n; Shut(int prot, const char* m) : n((region().used + 4095) / 4096 * 4096) { mprotect(reinterpret_cast<void*>(kIso), n, prot); g_guarded = m; } ~Shut() { mprotect(reinterpret_cast<void*>(kIso), n, PROT_READ | PROT_WRITE); g_guarded = nullptr; } };
  // A const operation: all memory read-only, static storage compared.
  template <class F> static bool look(State<C>& s, const char* nm, long a, F f) {
    set_op(nm, a);
    const S& c = s.seq(0);
    R.transitions++;
    bool known = !warm().insert(std::string(R.cfg) + nm).second;
    size_t n = (W().hw + 4095) / 4096 * 4096;
    g_guarded = "a const operation wrote the container or its storage";
    st().save();
    uint64_t sink;
    { mprotect(at_off(0), n, PROT_READ); sink = f(c); mprotect(at_off(0), n, PROT_READ | PROT_WRITE); }
    if (known) st().compare();
    g_guarded = nullptr;
    asm volatile("" : : "r"(sink));
    return !settle();
  }
  template <class It> static uint64_t walk(It b, It e, size_t n, size_t from) {
    uint64_t x = 0;
    for (It i = b; i != e; ++i) x += val(*i);
    for (It i = e; i != b;) { --i; x += val(*i); }
    It q = b + ptrdiff_t(from);
    for (size_t t = 0; t <= n; t += n > 40 ? n / 7 + 1 : 1) {
      It r = q + (ptrdiff_t(t) - ptrdiff_t(from)); It u = q; u += ptrdiff_t(t) - ptrdiff_t(from); u -= ptrdiff_t(t) - ptrdiff_t(from);
      x += (r - q) + (r == q) + (r < q) + (r > q) + (r <= q) + (r >= q) + (r != q) + (u == q);
      if (t < n) x += val(q[ptrdiff_t(t) - ptrdiff_t(from)]) + val(*r);
      It v = r; if (t < n) { v++; v--; } It w(v); w = r; x += (v == w);
    }
    return x;
  }
  template <class It> static uint64_t segs(const S& c, It b, It e) {
    uint64_t x = 0;
    for (It i = b; i != e; i.move_after_segment()) { x += uint64_t(i.end() - i.begin()) + uint64_t(i.current() - i.begin()) + c.index_of(i); It j = i; j.after_segment(); if (i != b) { It k = i; k.move_before_segment(); x += val(*k); It l = i; l.before_segment(); } }
    return x;
  }
  static void consts(State<C>& s) {
    size_t n = s.n;
    s.fresh();
    if (!look(s, "size, empty, max_size, height", 0, [](const S& c) -> uint64_t { return c.size() + c.empty() + c.max_size() + c.height(); })) return;
    if (!look(s, "get_allocator", 0, [](const S& c) -> uint64_t { return c.get_allocator().region1 + c.get_stored_allocator().region1; })) return;
    if (n && !look(s, "front, back, penultimate", 0, [](const S& c) -> uint64_t { return val(c.front()) + val(c.back()) + val(*c.penultimate()) + val(*c.cpenultimate()); })) return;
    for (size_t p : few_positions(n + 1, C::segmax, 10, 40)) {
      if (!look(s, "nth, index_of, [], at", long(p), [p, n](const S& c) -> uint64_t {
            uint64_t x = 0; auto it = c.nth(p); x += c.index_of(it) + c.index_of(c.cbegin() + ptrdiff_t(p));
            if (p < n) x += val(*it) + val(c[p]) + val(c.at(p)) + val(*it.current());
            return x; })) return;
      if (!look(s, "iterators", long(p), [p, n](const S& c) -> uint64_t { return walk(c.begin(), c.end(), n, p); })) return;
      if (!look(s, "reverse iterators", long(p), [p, n](const S& c) -> uint64_t { return walk(c.rbegin(), c.rend(), n, p) + walk(c.crbegin(), c.crend(), n, p); })) return;
      if (!look(s, "mutable iterators", long(p), [p, n](const S& c) -> uint64_t { S& m = const_cast<S&>(c); return walk(m.begin(), m.end(), n, p) + walk(m.rbegin(), m.rend(), n, p) + (p < n ? val(m[p]) + val(m.at(p)) + val(m.front()) + val(m.back()) : 0) + m.index_of(m.nth(p)); })) return;
    }
    if (!look(s, "segments", 0, [](const S& c) -> uint64_t { S& m = const_cast<S&>(c); return segs(c, c.begin(), c.end()) + segs(c, m.begin(), m.end()); })) return;
    if constexpr (El<T>::cmp)
      if (!look(s, "comparison", 0, [](const S& c) -> uint64_t { uint64_t x = (c == c) + (c != c) + (c < c) + (c > c) + (c <= c) + (c >= c); for (auto* o : others().s) x += (c == *o) + (*o == c) + (c < *o) + (*o < c) + (c != *o) + (c <= *o); return x; })) return;
  }
  static void edits(State<C>& s) {
    bool stop = false;
    Statics& t = st();
    all_ops<C>(s, [&](const Op<S>& o) {
      if (stop) return;
      op_name(o);
      S& c = s.fresh(); R.transitions++;
      bool known = !warm().insert(std::string(R.cfg) + "edit " + o.name).second;
      { Shut h(PROT_NONE, "an operation read or wrote another sequence"); t.save(); o.run(c); if (known) t.compare(); }
      same_contents(c, *o.expect);
      if (settle()) stop = true;
    });
    if (stop) return;
    // Others used as a source: read only.
    for (size_t k = 0; k < others().s.size(); ++k) {
      const S& o = *others().s[k]; const Vec& om = others().m[k];
      if (s.n > 400 || om.size() > 400) continue;
      auto with = [&](const char* nm, const Vec& ex, int slot, auto f) {
        set_op(nm, long(k)); S& c = s.fresh(); R.transitions++;
        bool known = !warm().insert(std::string(R.cfg) + nm).second;
        { Shut h(PROT_READ, "an operation wrote a constant source"); t.save(); f(c); if (known) t.compare(); }
        same_contents(Maker<C>::at(slot), ex); if (slot) same_contents(c, s.model);
        return !settle();
      };
      if constexpr (El<T>::copyable) {
        if (!with("= const seq&", om, 0, [&](S& c) { c = o; })) return;
        if (!with("seq(const seq&)", om, 2, [&](S&) { new (W().slot[2]) S(o); })) return;
        if (!with("seq(const seq&,alloc)", om, 2, [&](S&) { new (W().slot[2]) S(o, Iso<T, T>(0)); })) return;
        Vec ex(s.model); ex.insert(ex.begin() + s.n / 2, om.begin(), om.end());
        if (!with("insert(other range)", ex, 0, [&](S& c) { c.insert(c.nth(s.n / 2), o.begin(), o.end()); })) return;
        if (!with("assign(other range)", om, 0, [&](S& c) { c.assign(o.begin(), o.end()); })) return;
        if (!om.empty() && !with("push_back(other element)", m_ins(s.model, s.n, 1, om.back(), 0), 0, [&](S& c) { c.push_back(o.back()); })) return;
      }
    }
    for (size_t k = 0; k < others().s.size(); ++k) same_contents(*others().s[k], others().m[k], "other-contents");
    settle();
  }
  static void visit(State<C>& s) { others(); consts(s); if (s.n <= 5000) edits(s); }
};
// Every edit interrupted by edits of another sequence.
template <class C> struct VI {
  using S = typename C::Seq; using T = typename C::T;
  static void other_edits() {
    S& d = Maker<C>::at(1);
    auto keep = W().opid; W().opid++;
    d.insert(d.nth(d.size() / 2), mk<T>(61)); d.push_back(mk<T>(62)); d.push_front(mk<T>(63));
    if constexpr (El<T>::copyable) { const T v = mk<T>(64); d.insert(d.nth(1), C::segmax + 1, v); }
    d.erase(d.nth(2)); if (d.size() > 3) d.erase(d.nth(1), d.nth(3));
    d.reverse(); d.sort([](const T& a, const T& b) { return val(a) < val(b); }); d.remove_if([](const T& a) { return val(a) == 63; });
    uint64_t x = 0; for (auto it = d.begin(); it != d.end(); ++it) x += val(*it);
    { S e; e.push_back(mk<T>(65)); swap(d, e); S f(std::move(e)); d = std::move(f); }
    asm volatile("" : : "r"(x));
    W().opid = keep + 1;
  }
  static void visit(State<C>& s) {
    Vec done;
    { s.fresh(); set_op("the other sequence alone"); other_edits(); S& d = s.second(); for (auto it = d.begin(); it != d.end(); ++it) done.push_back(val(*it)); }
    bool stop = false;
    constexpr uint32_t mask = F_ALLOC | F_COPY | F_VALUE | F_ASSIGN | F_PRED | F_ITER | F_MOVE | F_MASSIGN;
    auto f = [&](const Op<S>& o) {
      if (stop) return;
      op_name(o);
      S& c0 = s.fresh(); faults_on(mask, -1); g_interrupt = nullptr; o.run(c0); int64_t pts = W().fault_count; faults_off();
      for (int64_t k = 0; k < pts; ++k) {
        op_name(o); snprintf(R.extra, sizeof R.extra, "(interrupted at point %lld of %lld by edits of another sequence)", (long long)k, (long long)pts);
        S& c = s.fresh(); R.transitions++;
        faults_on(mask, k); g_interrupt = other_edits;
        long r = o.run(c);
        faults_off(); g_interrupt = nullptr;
        if (same_contents(c, *o.expect)) same_contents(s.second(), done, "other-contents");
        if (!g_err.set && o.expect2) same_contents(Maker<C>::at(2), *o.expect2, "new-contents");
        if (!g_err.set && o.ret >= 0 && r != o.ret) err("returned", "the returned iterator has index %ld, expected %ld", r, o.ret);
        monitors<C>(o.expect->size() + done.size() + (o.expect2 ? o.expect2->size() : 0));
        if (settle()) { stop = true; return; }
      }
    };
    all_ops<C>(s, f);
  }
};
template <class C> void interrupted(const char* name, size_t q, size_t t, size_t other) {
  Explorer<C> e; e.explore_pairs(name, R.thorough() ? t : q, other, VI<C>::visit);
}
void go() {
  region_init();
#if PART == 1
  BFS("Trk 1,3", 15, 20, IsoCfg<TF, 1, 3>);
  BFS("Trk 2,3", 11, 13, IsoCfg<TF, 2, 3>);
#elif PART == 2
  BFS("u32 3,3", 15, 20, IsoCfg<uint32_t, 3, 3>);
  BFS("move-only 4,3", 14, 18, IsoCfg<TM, 4, 3>);
  BFS("copy-only 5,4", 14, 18, IsoCfg<TC, 5, 4>);
#elif PART == 3
  FROM("Trk 8,6", fills({20, 45, 70}), 0, 0, IsoCfg<TF, 8, 6>);
  FROM("tall u32 2,3", fills({50, 90}), 0, 0, IsoCfg<uint32_t, 2, 3>);
  FROM("default u64", fills({128, 129, 700}), 0, 0, IsoCfg<uint64_t, 128, 47, 1024, 768>);
  FROM("default Trk", fills({64, 65, 300}), 0, 0, IsoCfg<TF, 64, 47, 1024, 768>);
#elif PART == 4
  interrupted<Cfg<TF, 2, 3>>("interrupted Trk 2,3", 6, 7, 3);
#elif PART == 5
  interrupted<Cfg<TF, 1, 3>>("interrupted Trk 1,3", 8, 10, 3);
#elif PART == 6
  interrupted<Cfg<TF, 3, 3>>("interrupted Trk 3,3", 7, 9, 4);
  interrupted<Cfg<TM, 2, 3>>("interrupted move-only 2,3", 5, 7, 3);
  interrupted<Cfg<uint32_t, 2, 3>>("interrupted u32 2,3", 5, 7, 3);
#endif
}
MC_MAIN(go())
