#include "dropin.hpp"
#if __cplusplus >= 202002L
using I = C<int>::iterator; using K = C<int>::const_iterator; using L = C<int>;
static_assert(std::random_access_iterator<I> && std::random_access_iterator<K> && std::sentinel_for<K, I> && std::sentinel_for<I, K> && std::sized_sentinel_for<K, I> && std::sized_sentinel_for<I, K> && std::totally_ordered_with<I, K> && std::common_with<I, K>);
static_assert(std::ranges::random_access_range<L> && std::ranges::sized_range<L const> && std::ranges::common_range<L> && std::sortable<I> && std::totally_ordered<L> && std::regular<L> && std::swappable<L> && std::default_initializable<L> && !std::ranges::view<L>);
static_assert(std::default_initializable<I> && std::regular<K> && std::indirectly_swappable<I> && std::permutable<I> && std::mergeable<I, K, I>);
#endif
int main() {
#if __cplusplus >= 202002L
  L a{3, 1, 2}; std::ranges::sort(a); auto v = a | std::views::reverse | std::views::take(2) | std::views::transform([](int x) { return x + 1; }); L b(v.begin(), v.end()); CHECK(is(b, {4, 3})); std::ranges::subrange s(a.begin(), a.cend()); CHECK(s.size() == 3); std::ranges::copy(a, std::back_inserter(b)); CHECK(b.size() == 5); a.insert(std::ranges::find(a, 2), 9); CHECK(is(a, {1, 9, 2, 3})); CHECK(std::ssize(a) == 4 && std::ranges::ssize(a) == 4 && !std::ranges::empty(a)); auto r = std::ranges::remove(a, 2); a.erase(r.begin(), r.end()); CHECK(is(a, {1, 9, 3})); for (int& x : a | std::views::drop(1)) x = 0; CHECK(is(a, {1, 0, 0})); auto w = std::views::all(a); CHECK(w.size() == 3 && w[0] == 1); std::ranges::ref_view rv(a); CHECK(std::ranges::equal(rv, a)); CHECK(std::ranges::max(a) == 1); auto o = std::views::iota(0, 4) | std::views::transform([](int i) { return L(size_t(i), i); }); L j; for (int x : o | std::views::join) j.push_back(x); CHECK(is(j, {1, 2, 2, 3, 3, 3})); std::ranges::swap(a, b); CHECK(b.size() == 3);
#endif
}
