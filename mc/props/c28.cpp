// parts: 9
// rule: in every state of the suite's bounded spaces, at every position and for every length of a set around the segment capacities, insert, assign and construction take a single-pass source, a multi-pass source of each kind, a move range and a generated one; every call on the source is recorded and the record must be one read of each position, in order, and nothing at the end
// assume: source iterators model the standard's iterator requirements
// C28: range operations read each source element once, in order.
#include "../suite.hpp"
#include <list>
#include <forward_list>
#include <sstream>
using namespace mc;
// A multi-pass source that records every read.  Ref is what a read gives: a reference to a stored
// element or a value made on the spot.
struct Log { std::vector<uint32_t> reads; uint32_t first, size; const void* store; };
template <class T, class Ref, class Cat> struct Mon {
  using iterator_category = Cat; using value_type = typename std::decay<Ref>::type; using difference_type = ptrdiff_t;
  using reference = Ref; using pointer = typename std::remove_reference<Ref>::type*;
  Log* l = nullptr; uint32_t at = 0;
  Ref get(uint32_t i) const {
    if (i >= l->size) { err("feed-end", "position %u of a source of %u elements was read", i, l->size); i = 0; }
    else l->reads.push_back(i);
    if constexpr (std::is_reference<Ref>::value) return static_cast<Ref>(const_cast<T*>(static_cast<const T*>(l->store))[i]);
    else return mk<value_type>(l->first + i);
  }
  Ref operator*() const { return get(at); }
  Mon& operator++() { if (at >= l->size) err("feed-end", "the source was advanced past its end"); else ++at; return *this; }
  Mon operator++(int) { Mon c = *this; ++*this; return c; }
  Mon& operator--() { if (!at) err("feed-end", "the source was moved before its first element"); else --at; return *this; }
  Mon operator--(int) { Mon c = *this; --*this; return c; }
  Mon& operator+=(ptrdiff_t d) { long t = long(at) + d; if (t < 0 || t > long(l->size)) err("feed-end", "the source was moved to position %ld of %u", t, l->size); else at = uint32_t(t); return *this; }
  Mon& operator-=(ptrdiff_t d) { return *this += -d; }
  Ref operator[](ptrdiff_t d) const { return get(uint32_t(at + d)); }
  friend Mon operator+(Mon a, ptrdiff_t d) { return a += d; }
  friend Mon operator+(ptrdiff_t d, Mon a) { return a += d; }
  friend Mon operator-(Mon a, ptrdiff_t d) { return a -= d; }
  friend ptrdiff_t operator-(const Mon& a, const Mon& b) { return ptrdiff_t(a.at) - ptrdiff_t(b.at); }
  friend bool operator==(const Mon& a, const Mon& b) { return a.at == b.at; }
  friend bool operator!=(const Mon& a, const Mon& b) { return a.at != b.at; }
  friend bool operator<(const Mon& a, const Mon& b) { return a.at < b.at; }
  friend bool operator>(const Mon& a, const Mon& b) { return a.at > b.at; }
  friend bool operator<=(const Mon& a, const Mon& b) { return a.at <= b.at; }
  friend bool operator>=(const Mon& a, const Mon& b) { return a.at >= b.at; }
};
template <class C> struct V {
  static constexpr int less = 3;
  using S = typename C::Seq; using T = typename C::T; using E = El<T>;
  static constexpr bool direct = std::is_convertible<uint32_t, T>::value;
  // One use of a source; `how`: 0 insert at p, 1 assign, 2 construct, 3 construct with an allocator
  template <class It> static void use(S& c, int how, size_t p, It a, It b, long* ret) {
    *ret = -1;
    switch (how) {
      case 0: *ret = long(c.index_of(c.insert(c.nth(p), a, b))); break;
      case 1: c.assign(a, b); break;
      case 2: new (&W().slot[2]) S(a, b); break;
      case 3: new (&W().slot[2]) S(a, b, c.get_allocator()); break;
    }
  }
  static bool after(State<C>& s, S& c, int how, size_t p, size_t k, long ret) {
    Vec m;
    if (how == 0) m = m_ins(s.model, p, k, kNew, 1); else m = m_seq(k, kNew, 1);
    if (how == 0 && ret != long(p)) err("ret", "the iterator returned is at %ld, not at %zu", ret, p);
    if (how < 2) same_contents(c, m); else { S& d = Maker<C>::at(2); same_contents(d, m); same_contents(c, s.model); }
    R.transitions++;
    if (how >= 2) Maker<C>::at(2).~S();
    return !settle();
  }
  static const char* label(int how, const char* src) {
    static std::map<std::string, std::string> names; std::string key = src; key += char('0' + how);
    auto& n = names[key];
    if (n.empty()) n = std::string(how == 0 ? "insert" : how == 1 ? "assign" : how == 2 ? "construct" : "construct with allocator") + " from " + src;
    return n.c_str();
  }
  template <class Ref, class Cat> static bool multi(State<C>& s, const char* nm, int how, size_t p, size_t k) {
    using It = Mon<T, Ref, Cat>;
    set_op(label(how, nm), long(p), long(k));
    Log l{{}, kNew, uint32_t(k), nullptr};
    Src<T> store(std::is_reference<Ref>::value ? k : 0, kNew);
    l.store = store.p;
    l.reads.reserve(k + 8);
    S& c = s.fresh(); long ret;
    World& w = W(); uint64_t cp = w.copies + w.cassigns;
    use(c, how, p, It{&l, 0}, It{&l, uint32_t(k)}, &ret);
    if (l.reads.size() != k) err("feed-count", "%zu reads of a source of %zu elements", l.reads.size(), k);
    for (size_t i = 0; i < k && i < l.reads.size(); ++i) if (l.reads[i] != i) { err("feed-order", "read %zu of the source is of position %u", i, l.reads[i]); break; }
    if (E::tracked && E::movable && !std::is_lvalue_reference<Ref>::value && w.copies + w.cassigns != cp) err("feed-copied", "elements given as rvalues were copied");
    if (std::is_lvalue_reference<Ref>::value) for (size_t i = 0; i < k; ++i) if (val(store.p[i]) != fold<T>(uint32_t(kNew + i))) { err("feed-changed", "element %zu of the source was changed", i); break; }
    return after(s, c, how, p, k, ret);
  }
  static bool one(State<C>& s, int how, size_t p, size_t k) {
    long ret;
    { set_op(label(how, "a single-pass source"), long(p), long(k));
      S& c = s.fresh(); Feed f{kNew, uint32_t(k)};
      use(c, how, p, FeedIt<T>(&f), FeedIt<T>(), &ret);
      if (f.reads != k || f.pos != k || f.read) err("feed-count", "%u reads and %u steps of a source of %zu elements", f.reads, f.pos, k);
      if (!after(s, c, how, p, k, ret)) return false; }
    if constexpr (direct || !std::is_same<T, std::string>::value) if (direct || how != 1) {
      if (how != 1 || direct) {
        set_op(label(how, "a single-pass source of numbers"), long(p), long(k));
        S& c = s.fresh(); Feed f{kNew, uint32_t(k)};
        bool ran = false;
        if constexpr (direct) { use(c, how, p, FeedIt<uint32_t>(&f), FeedIt<uint32_t>(), &ret); ran = true; }
        else if (how == 0) { ret = long(c.index_of(c.insert(c.nth(p), FeedIt<uint32_t>(&f), FeedIt<uint32_t>()))); ran = true; }
        else if (how == 2) { new (&W().slot[2]) S(FeedIt<uint32_t>(&f), FeedIt<uint32_t>()); ret = -1; ran = true; }
        if (ran) { if (f.reads != k || f.pos != k) err("feed-count", "%u reads and %u steps of a source of %zu elements", f.reads, f.pos, k); if (!after(s, c, how, p, k, ret)) return false; }
      }
    }
    if constexpr (E::copyable) {
      if (!multi<const T&, std::forward_iterator_tag>(s, "a multi-pass source", how, p, k)) return false;
      if (!multi<T&, std::bidirectional_iterator_tag>(s, "a two-way source", how, p, k)) return false;
      if (!multi<const T&, std::random_access_iterator_tag>(s, "a random access source", how, p, k)) return false;
    }
    if constexpr (E::movable || E::copyable) {
      if (!multi<T, std::input_iterator_tag>(s, "a generated source", how, p, k)) return false;
      if (!multi<T, std::random_access_iterator_tag>(s, "a generated random access source", how, p, k)) return false;
      if (!multi<T&&, std::random_access_iterator_tag>(s, "a source of rvalues", how, p, k)) return false;
    }
    { set_op(label(how, "a move range"), long(p), long(k));
      Src<T> v(k, kNew); S& c = s.fresh();
      World& w = W(); uint64_t cp = w.copies + w.cassigns;
      use(c, how, p, std::make_move_iterator(v.p), std::make_move_iterator(v.p + k), &ret);
      if (E::tracked && E::movable) {
        if (w.copies + w.cassigns != cp) err("feed-copied", "a move range was copied");
        for (size_t i = 0; i < k; ++i) if (val(v.p[i]) != kMovedVal) { err("feed-left", "element %zu of the move range was not moved from", i); break; }
      }
      if (!after(s, c, how, p, k, ret)) return false; }
    if (k && k <= 5) {
      if constexpr (E::copyable) {
        { set_op(label(how, "a list"), long(p), long(k));
          S& c = s.fresh(); auto m = W().fault_mask; std::list<T> l; std::forward_list<T> fl;
          for (size_t i = 0; i < k; ++i) { l.push_back(mk<T>(uint32_t(kNew + i))); fl.push_front(mk<T>(uint32_t(kNew + k - 1 - i))); }
          W().fault_mask = m;
          use(c, how, p, l.cbegin(), l.cend(), &ret); if (!after(s, c, how, p, k, ret)) return false;
          S& c2 = s.fresh(); W().live_elems += 2 * k;
          use(c2, how, p, fl.cbegin(), fl.cend(), &ret); if (!after(s, c2, how, p, k, ret)) return false; }
        { // the elements of another sequence, read by its iterators in both directions
          set_op(label(how, "another sequence"), long(p), long(k));
          for (int back = 0; back < 2; ++back) for (int mv = 0; mv < 2; ++mv) {
            S& c = s.fresh();
            using Other = boost::segmented_tree::seq<T, std::allocator<T>, 2 * sizeof(T), 0>;
            Other o; for (size_t i = 0; i < 3 * k; ++i) o.push_back(mk<T>(uint32_t(kNew + (back ? 3 * k - 1 - i : i))));
            if (back) { if (mv) use(c, how, p, std::make_move_iterator(o.rbegin()), std::make_move_iterator(o.rend()), &ret); else use(c, how, p, o.crbegin(), o.crend(), &ret); }
            else { if (mv) use(c, how, p, std::make_move_iterator(o.begin()), std::make_move_iterator(o.end()), &ret); else use(c, how, p, o.cbegin(), o.cend(), &ret); }
            size_t i = 0;
            for (auto it = o.begin(); it != o.end(); ++it, ++i) {
              uint32_t want = fold<T>(uint32_t(kNew + (back ? 3 * k - 1 - i : i)));
              if (mv && E::tracked && E::movable) want = kMovedVal;
              if (!(mv && std::is_same<T, std::string>::value) && val(*it) != want) { err("feed-left", "element %zu of the source sequence is %u afterwards, expected %u", i, val(*it), want); break; }
            }
            if (i != 3 * k) err("feed-left", "the source sequence changed its size");
            if (!after(s, c, how, p, 3 * k, ret)) return false;
          } }
      }
      if constexpr (std::is_same<T, uint32_t>::value || std::is_same<T, uint64_t>::value) {
        set_op(label(how, "a stream"), long(p), long(k));
        S& c = s.fresh(); std::string text; for (size_t i = 0; i < k; ++i) text += std::to_string(kNew + i) + " ";
        std::istringstream in(text);
        use(c, how, p, std::istream_iterator<uint32_t>(in), std::istream_iterator<uint32_t>(), &ret);
        if (!after(s, c, how, p, k, ret)) return false;
      }
    }
    return true;
  }
  static void visit(State<C>& s) {
    std::vector<size_t> ks{0, 1, 2, 3, 4};
    if (C::segmax + 1 > 4) ks.push_back(C::segmax + 1);
    if (2 * C::segmax + 1 > 5) ks.push_back(2 * C::segmax + 1);
    if (s.n > 5000 || C::segmax > 1000) ks = {0, 1, 3};
    for (size_t p : few_positions(s.n + 1, C::segmax, s.n > 5000 ? 3 : 10, 30)) for (size_t k : ks) if (!one(s, 0, p, k)) return;
    std::vector<size_t> as = s.n <= 30 ? upto(s.n + 4) : std::vector<size_t>{0, 1, s.n / 2, s.n, s.n + 3};
    if (s.n > 5000) as = {0, s.n, s.n + 1};
    for (size_t k : as) if (!one(s, 1, 0, k)) return;
    if (s.n == 0) for (size_t k : upto(30)) for (int how : {2, 3}) if (!one(s, how, 0, k)) return;
  }
};
template <class C> struct VL {
  static void visit(State<C>& s) {
    for (size_t k : {size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537), size_t(70001)}) {
      for (size_t p : {size_t(0), s.n / 2, s.n}) if (!V<C>::one(s, 0, p, k)) return;
      for (int how : {1, 2, 3}) if (!V<C>::one(s, how, 0, k)) return;
    }
  }
};
void longer() {
#if PART == 9
  from<Cfg<uint32_t, 64, 47, 0, 256, 768>>("long sources u32", fills({65}, false), 0, 0, VL<Cfg<uint32_t, 64, 47, 0, 256, 768>>::visit);
  from<Cfg<uint16_t, 65536, 3, 0, 131072, 0>>("long sources long block u16", fills({300}, false), 0, 0, VL<Cfg<uint16_t, 65536, 3, 0, 131072, 0>>::visit);
#endif
}
MC_MAIN(suite<V>(), longer())
