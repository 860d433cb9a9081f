#include "dropin.hpp"
struct Agg { C<int> a; int b; C<C<int>> c; };
C<int> none() { return {}; }
C<int> two() { return {4, 5}; }
size_t len(C<int> const& c) { return c.size(); }
int main() {
  C<int> a = {}; CHECK(a.empty()); C<int> b = {1, 2}; CHECK(is(b, {1, 2})); Agg g = {}; CHECK(g.a.empty() && g.b == 0 && g.c.empty()); Agg k = {{1}, 2, {{1, 2}, {}}}; CHECK(k.c[0].size() == 2 && k.c[1].empty() && is(k.a, {1}));
  CHECK(none().empty() && two().size() == 2 && len({}) == 0 && len({1, 2, 3}) == 3); b = {}; CHECK(b.empty()); b = {7}; CHECK(is(b, {7})); C<int> z{}; CHECK(z.empty()); C<int> n(3); CHECK(n.size() == 3 && n[2] == 0); C<int> v(3, 2); CHECK(is(v, {2, 2, 2})); C<int> w{3, 2}; CHECK(is(w, {3, 2}));
  std::pair<int, C<int>> p = {}; CHECK(p.second.empty()); std::array<C<int>, 2> ar = {}; CHECK(ar[1].empty()); new (&a) C<int>(); std::map<int, C<int>> m = {{1, {}}, {2, {3}}}; CHECK(m[1].empty() && m[2].size() == 1);
  C<int> f = true ? C<int>{} : C<int>{1}; CHECK(f.empty()); const C<int> c; CHECK(c.empty());
}
