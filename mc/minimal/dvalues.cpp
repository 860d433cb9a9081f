#include "dropin.hpp"
int main() {
  C<C<int>> a{{1, 2}, {3}}; a.emplace_back(2, 7); a.push_back({8}); a.insert(a.begin(), {{9}, {}}); CHECK(a.size() == 6 && a[1].empty() && a[4] == (C<int>{7, 7})); C<std::pair<int, C<int>>> b; b.emplace_back(1, C<int>{2}); b.push_back({1, {2, 3}}); CHECK(b[1].second.size() == 2);
  std::map<int, C<int>> m; m[1].push_back(2); std::map<C<int>, int> n; n[{1, 2}] = 3; n[{1}] = 4; CHECK(n.begin()->second == 4 && m[1].size() == 1); std::unordered_map<std::string, C<std::string>> um; um["a"].push_back("x"); CHECK(um["a"].back() == "x"); auto t = std::make_tuple(C<int>{1}, 1); std::tuple<C<int>, int> t2; t2 = t; CHECK(t2 == t && std::get<0>(t2).size() == 1); std::vector<C<int>> v(3, C<int>{1}); v.resize(100); CHECK(v[2].size() == 1 && v[99].empty()); std::sort(v.begin(), v.end()); CHECK(v[99].size() == 1);
  auto sp = std::make_shared<C<int>>(3, 1); std::unique_ptr<C<int> const> up(new C<int>{1, 2}); CHECK(sp->size() == 3 && up->back() == 2); auto lam = [](C<int> c) { return c; }; CHECK(lam({1, 2}).size() == 2 && lam(C<int>(4)).size() == 4); C<int> x{1}, y{2}; std::tie(x, y) = std::make_tuple(y, x); CHECK(x[0] == 2 && y[0] == 1); std::swap(x, y); CHECK(x[0] == 1); x = x; CHECK(x.size() == 1);
}
