#include "dropin.hpp"
template <class I> void fresh() { alignas(I) unsigned char a[sizeof(I)], b[sizeof(I)]; std::fill(a, a + sizeof a, 0x55); std::fill(b, b + sizeof b, 0x77); unsigned char* volatile pa = a; unsigned char* volatile pb = b; I* x = ::new (pa) I(); I* y = ::new (pb) I{}; CHECK(*x == *y && !(*x != *y) && *x - *y == 0); }
int main() {
  fresh<C<int>::iterator>(); fresh<C<std::string>::const_iterator>(); fresh<C<int>::reverse_iterator>();
  using L = C<int>; L::iterator i{}, j; L::const_iterator ci{}; CHECK(L::iterator() == L::iterator() && L::const_iterator() == L::iterator()); i = L::iterator(); L a{1, 2, 3}; i = a.begin(); j = i++; CHECK(*j == 1 && *i == 2); j = ++i; CHECK(*j == 3); j += -1; CHECK(*j == 2); i = 1 + a.begin(); CHECK(i == j); int* p = i.operator->(); CHECK(p == &*i && p == &i[0] && &a[1] == p); std::advance(i, 1); CHECK(*std::prev(i) == 2 && std::next(i) == a.cend() && std::distance(a.begin(), i) == 2); using std::swap; swap(i, j); CHECK(*i == 2 && *j == 3); std::iter_swap(i, j); CHECK(*i == 3); auto m = std::make_move_iterator(i); int x = *m; CHECK(x == 3); std::reverse_iterator<L::iterator> rr(j); CHECK(*rr == 3 && rr.base() == j); ci = i; CHECK(ci == i && ci + 1 == j); CHECK(!(i < ci) && i <= ci && j > ci); *i++ = 7; CHECK(a[1] == 7); (*--i)++; CHECK(a[1] == 8); std::reference_wrapper<L::iterator> rw(i); ++rw.get(); CHECK(i == j); L::const_iterator const k = a.cbegin(); CHECK(*k == 1 && k[2] == 2 && *(k + 1) == 8 && (k + 3) - k == 3);
}
