#include "dropin.hpp"
int main() {
  C<int> a; for (int i = 0; i < 700; ++i) a.push_back(i); C<int> const& c = a;
  for (int i = 0; i <= 700; i += 50) for (int j = 0; j <= 700; j += 50) {
    auto x = a.begin() + i; auto y = c.begin() + j;
    CHECK((x == y) == (i == j) && (y == x) == (i == j) && (x != y) == (i != j) && (y != x) == (i != j)); CHECK((x < y) == (i < j) && (y < x) == (j < i) && (x > y) == (i > j) && (y > x) == (j > i) && (x <= y) == (i <= j) && (y <= x) == (j <= i) && (x >= y) == (i >= j) && (y >= x) == (j >= i)); CHECK(x - y == i - j && y - x == j - i);
    auto rx = a.rend() - i; auto ry = c.rend() - j; CHECK((rx == ry) == (i == j) && (ry != rx) == (i != j) && (rx < ry) == (i > j) && (ry <= rx) == (j >= i) && rx - ry == j - i);
  }
  int k = 0; for (auto it = a.begin(); it != a.cend(); ++it) ++k; for (auto it = a.cbegin(); it != a.end(); ++it) ++k; for (auto it = a.rbegin(); it != a.crend(); ++it) ++k; CHECK(k == 2100);
  C<int>::const_iterator ci = a.begin(); ci = a.end(); CHECK(true ? a.end() == ci : false); auto t = true ? a.cbegin() : a.begin(); CHECK(t == a.begin()); CHECK(std::distance<C<int>::const_iterator>(a.begin(), a.cend()) == 700);
  a.erase(a.begin() + 1, a.cend() - 1); CHECK(is(a, {0, 699})); a.insert(a.begin() + 1, 5); a.insert(a.cbegin() + 1, 6); CHECK(is(a, {0, 6, 5, 699}));
}
