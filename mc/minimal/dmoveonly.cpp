#include "dropin.hpp"
using U = std::unique_ptr<int>;
int main() {
  C<U> a; a.push_back(U(new int(1))); a.emplace_back(new int(2)); a.insert(a.begin(), nullptr); a.emplace(a.begin(), nullptr); a.push_front(U()); CHECK(a.size() == 5 && *a[4] == 2); C<U> b(std::move(a)); CHECK(a.empty() && b.size() == 5); a = std::move(b); C<U> c(3); c.resize(5); CHECK(!c[4]); C<U> d(std::make_move_iterator(a.begin()), std::make_move_iterator(a.end())); CHECK(*d[3] == 1 && !a[3]); a.insert(a.begin() + 1, std::make_move_iterator(d.begin()), std::make_move_iterator(d.end())); CHECK(*a[4] == 1); a.erase(std::remove(a.begin(), a.end(), nullptr), a.end()); CHECK(a.size() == 2); a.swap(d); std::swap(a, d); std::rotate(a.begin(), a.begin() + 1, a.end()); CHECK(*a[0] == 2); std::sort(a.begin(), a.end(), [](U const& x, U const& y) { return *x < *y; }); CHECK(*a[0] == 1); U t = std::move(a.back()); a.pop_back(); a.push_back(std::move(t)); CHECK(*a.back() == 2); a.clear();
}
