#include "dropin.hpp"
template <class X> void use(X const& c) { int n = 0; for (auto it = c.begin(); it != c.end(); ++it) n += *it; for (auto it = c.rbegin(); it != c.rend(); ++it) n -= *it; CHECK(n == 0); if (!c.empty()) CHECK(c.front() == *c.begin() && c.back() == *c.rbegin() && c.at(0) == c[0]); CHECK(c.size() == std::size_t(c.cend() - c.cbegin())); X d(c); CHECK(d == c && !(d < c) && d <= c && c >= d && !(d != c) && !(c > d)); CHECK(c.get_allocator() == d.get_allocator() && c.max_size() >= c.size()); }
int main() { C<int> const e; use(e); C<int> const k{1, 2, 3}; use(k); CHECK(e < k && k > e && e != k); use(std::vector<int>{1}); use(std::deque<int>{1}); }
