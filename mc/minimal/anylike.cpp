// An element that can be made from anything, allocators and sequences included.
#include "common.hpp"
#include <any>
struct M {
  int v;
  template <class X, class = typename std::enable_if<!std::is_same<typename std::decay<X>::type, M>::value>::type> M(X&& x) : v(num(x, 0)) {}
  static int num(int i, int) { return i; }
  template <class X> static int num(const X&, long) { return -1; }
};
int main() {
  moving<Seq<M>>([](int i) { return M(i); }, [](const M& m) { return m.v; });
  Seq<M> a; for (int i = 0; i < 9; ++i) a.push_back(i);
  Seq<M> b(a); CHECK(b.size() == 9 && b[3].v == 3);
  const Seq<M> c(b); Seq<M> d(c), e(c, c.get_allocator()), f(std::move(b)), g(std::move(f), c.get_allocator()), h(5, M(2)), i(c.get_allocator()), j(c.begin(), c.end());
  CHECK(d.size() == 9 && e.size() == 9 && g.size() == 9 && h.size() == 5 && i.empty() && j.size() == 9 && j[8].v == 8);
  d = a; CHECK(d.size() == 9 && d[8].v == 8);
  Seq<std::any> x; x.push_back(1); x.push_back(2.5); Seq<std::any> y(x); CHECK(y.size() == 2); Seq<std::any> z(std::move(y)); CHECK(z.size() == 2 && std::any_cast<int>(z[0]) == 1);
}
