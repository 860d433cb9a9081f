// The read-only interface works on constant sequences; writing through it does not compile.
#include "common.hpp"
#include <type_traits>
int main() {
  using S = Seq<int>;
  S a{}; for (int i = 0; i < 20; ++i) a.push_back(i);
  const S& k = a;
  static_assert(std::is_same<decltype(*k.begin()), const int&>::value, ""); static_assert(std::is_same<decltype(k[0]), const int&>::value, "");
  static_assert(std::is_same<decltype(k.at(0)), const int&>::value, ""); static_assert(std::is_same<decltype(k.front()), const int&>::value, "");
  static_assert(std::is_same<decltype(k.back()), const int&>::value, ""); static_assert(std::is_same<decltype(*k.nth(0)), const int&>::value, "");
  static_assert(std::is_same<decltype(*a.begin()), int&>::value, ""); static_assert(std::is_same<decltype(*a.cbegin()), const int&>::value, "");
  static_assert(std::is_convertible<S::iterator, S::const_iterator>::value, ""); static_assert(!std::is_convertible<S::const_iterator, S::iterator>::value, "");
  static_assert(std::is_same<decltype(k.begin()), S::const_iterator>::value, ""); static_assert(std::is_same<decltype(a.nth(1)), S::iterator>::value, "");
  CHECK(k.size() == 20 && k.front() == 0 && k.back() == 19 && k.at(3) == 3 && k[4] == 4 && *k.nth(5) == 5 && *k.rbegin() == 19 && *(k.rend() - 1) == 0 && k.max_size() > 20);
  long n = 0; for (int x : k) n += x; CHECK(n == 190);
}
