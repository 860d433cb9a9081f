#include "dropin.hpp"
int main() {
  using L = C<int>; L a{1, 2}; L::value_type v = a.front(); L::reference r = a.back(); L::const_reference cr = a[0]; L::size_type s = a.size(); L::difference_type d = a.end() - a.begin(); L::pointer p = &r; L::const_pointer cp = &cr; L::iterator i = a.begin(); L::const_iterator ci = i; L::reverse_iterator ri = a.rbegin(); L::const_reverse_iterator cri = ri; L::allocator_type al = a.get_allocator(); CHECK(v == 1 && *p == 2 && *cp == 1 && s == 2 && d == 2 && *i == 1 && *ci == 1 && *ri == 2 && *cri == 2); ci = i; cri = ri;
  L b(al), c(3, al), e(3, 4, al), f(a, al), g(L(a), al), h({1, 2}, al), j(p, p + 1, al); CHECK(b.empty() && c.size() == 3 && e[2] == 4 && f == a && g == a && h == a && j.size() == 1 && j[0] == 2); a.swap(b); swap(a, b); std::swap(a, b); CHECK(a.empty() && b.size() == 2); CHECK(b.max_size() >= 1000000 && b.at(1) == 2); bool threw = false; try { b.at(2); } catch (std::out_of_range const&) { threw = true; } CHECK(threw); b.pop_front(); b.pop_back(); CHECK(b.empty()); static_assert(std::is_same<decltype(a.insert(a.begin(), 1)), L::iterator>::value && std::is_same<decltype(a.insert(a.begin(), 1, 1)), L::iterator>::value && std::is_same<decltype(a.insert(a.begin(), {1})), L::iterator>::value && std::is_same<decltype(a.insert(a.begin(), p, p)), L::iterator>::value && std::is_same<decltype(a.erase(a.begin())), L::iterator>::value && std::is_same<decltype(a.erase(a.begin(), a.end())), L::iterator>::value && std::is_same<decltype(a.emplace(a.begin(), 1)), L::iterator>::value && std::is_same<decltype(a = b), L&>::value && std::is_same<decltype(a = {1}), L&>::value, "");
}
