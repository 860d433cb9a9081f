// An allocator with nothing but what the standard requires, not even a default constructor.
#include "common.hpp"
static long live = 0;
template <class U> struct Bare {
  typedef U value_type;
  int id; explicit Bare(int i) : id(i) {}
  template <class V> Bare(const Bare<V>& o) : id(o.id) {}
  U* allocate(std::size_t n) { live += long(n); return static_cast<U*>(std::malloc(n * sizeof(U))); }
  void deallocate(U* p, std::size_t n) { live -= long(n); std::free(p); }
};
template <class U, class V> bool operator==(const Bare<U>& a, const Bare<V>& b) { return a.id == b.id; }
template <class U, class V> bool operator!=(const Bare<U>& a, const Bare<V>& b) { return a.id != b.id; }
int main() {
  {
    using S = boost::segmented_tree::seq<int, Bare<int>, 12, 80>;
    Bare<int> x(1), y(2);
    S a(x), b(5, 3, y), c(4, x), d({1, 2, 3}, y);
    for (int i = 0; i < 50; ++i) { a.push_back(i); b.push_front(i); a.insert(a.nth(3 * i % a.size()), i); }
    S e(a), f(a, y), g(std::move(b)), h(std::move(g), x);
    a = d; CHECK(a == d); a = std::move(f); CHECK(a.size() == 100); c.splice(c.nth(2), h); CHECK(c.size() == 59); a.sort(); c.sort(); a.merge(c); CHECK(a.size() == 159);
    e.resize(3); e.resize(30); e.assign(7, 7); e.swap(e); e.clear(); d.swap(f); CHECK(f.size() == 3);
  }
  CHECK(live == 0);
}
