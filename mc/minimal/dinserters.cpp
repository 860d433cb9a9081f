#include "dropin.hpp"
int main() {
  C<int> a{1, 2, 3}; std::back_insert_iterator<C<int>> b(a); *b++ = 4; b = 5; auto f = std::front_inserter(a); *f++ = 0; *f = -1; CHECK(is(a, {-1, 0, 1, 2, 3, 4, 5})); C<int> d; std::copy(a.rbegin(), a.rend(), std::inserter(d, d.begin())); CHECK(is(d, {5, 4, 3, 2, 1, 0, -1})); std::merge(a.begin(), a.end(), a.cbegin(), a.cend(), std::inserter(d, d.begin() + 3)); CHECK(d.size() == 21 && d[3] == -1 && d[17] == 2);
  std::list<int> l(a.begin(), a.end()); C<int> e(l.begin(), l.end()); CHECK(e == a); std::vector<int> v(e.begin(), e.end()); std::deque<int> q(e.cbegin(), e.cend()); CHECK(std::equal(v.begin(), v.end(), q.begin())); std::forward_list<int> fl(a.begin(), a.end()); e.assign(fl.begin(), fl.end()); CHECK(e == a); e.insert(e.end(), v.rbegin(), v.rend()); CHECK(e.size() == 14 && e.back() == -1);
  std::back_insert_iterator<C<std::unique_ptr<int>>>* p = nullptr; (void)p; C<std::unique_ptr<int>> up; auto ui = std::back_inserter(up); *ui = std::unique_ptr<int>(new int(4)); CHECK(*up[0] == 4); int sum = 0; for (int& x : a) x *= 2; for (auto const& x : a) sum += x; CHECK(sum == 28); CHECK(*std::begin(a) == -2 && *std::prev(std::end(a)) == 10);
}
