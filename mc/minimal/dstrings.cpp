#include "dropin.hpp"
int main() {
  C<std::string> a; a.push_back("x"); a.emplace_back(3, 'c'); a.insert(a.begin(), "y"); a.insert(a.end(), 2, "z"); a.insert(a.begin(), {"a", "b"}); CHECK(is<std::string>(a, {"a", "b", "y", "x", "ccc", "z", "z"})); a.assign({"q"}); CHECK(a.size() == 1); a = {"r", "s"}; a.assign(2, "k"); a.resize(4, "p"); CHECK(is<std::string>(a, {"k", "k", "p", "p"}));
  const char* s[] = {"1", "2"}; C<std::string> b(s, s + 2); a.assign(s, s + 2); a.insert(a.begin() + 1, s, s + 2); CHECK(is<std::string>(a, {"1", "1", "2", "2"})); a.emplace(a.cbegin(), "t"); a.erase(a.begin() + 1); a.insert(a.cbegin(), std::string("m")); a.push_front("w"); a.emplace_front(2, 'v'); CHECK(a[0] == "vv" && a[1] == "w" && a[2] == "m" && a[3] == "t" && a.size() == 7); CHECK(a.front() == "vv" && a.back() == "2"); a.begin()->append("!"); CHECK(a.front() == "vv!"); CHECK(a.cbegin()->size() == 3 && a.rbegin()->size() == 1 && a.begin()[1] == "w");
}
