#include "dropin.hpp"
int main() {
#if __cplusplus >= 201703L
  std::optional<C<int>> o; o.emplace({1, 2}); CHECK(o->size() == 2); o = C<int>{3}; std::variant<int, C<int>> v = C<int>{1}; std::get<1>(v).push_back(1); CHECK(std::get<1>(v).size() == 2); v = 3; std::any a = C<int>{4}; CHECK(std::any_cast<C<int>&>(a)[0] == 4); auto t = std::apply([](C<int> c, int k) { c.push_back(k); return c; }, std::make_tuple(C<int>{1}, 2)); CHECK(is(t, {1, 2})); CHECK(std::size(t) == 2 && !std::empty(t)); auto [x, y] = std::pair<C<int>, int>{{1}, 2}; CHECK(x.size() == 1 && y == 2); std::vector<int> d; std::copy_n(t.begin(), 2, std::back_inserter(d)); CHECK(std::reduce(t.begin(), t.end()) == 3);
#endif
}
