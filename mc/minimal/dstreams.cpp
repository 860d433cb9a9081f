#include "dropin.hpp"
int main() {
  std::istringstream is("1 2 3 4 5"); C<int> a((std::istream_iterator<int>(is)), std::istream_iterator<int>()); CHECK(::is(a, {1, 2, 3, 4, 5})); std::istringstream js("6 7"); a.insert(a.begin() + 1, std::istream_iterator<int>(js), std::istream_iterator<int>()); CHECK(::is(a, {1, 6, 7, 2, 3, 4, 5})); std::istringstream ks("8"); a.assign(std::istream_iterator<int>(ks), std::istream_iterator<int>()); CHECK(::is(a, {8})); std::ostringstream os; a.push_back(9); std::copy(a.begin(), a.end(), std::ostream_iterator<int>(os, ",")); CHECK(os.str() == "8,9,"); std::istringstream cs("ab c"); C<char> c((std::istreambuf_iterator<char>(cs)), std::istreambuf_iterator<char>()); CHECK(c.size() == 4 && c[2] == ' '); std::string str(c.begin(), c.end()); CHECK(str == "ab c"); C<char> d(str.begin(), str.end()); CHECK(d == c); C<char> e(str.c_str(), str.c_str() + 2); CHECK(e.size() == 2);
}
