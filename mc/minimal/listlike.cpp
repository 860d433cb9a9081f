// Elements that can also be made from a list: emplacing must use the constructor the arguments name.
#include "common.hpp"
#include <initializer_list>
#include <string>
#include <vector>
struct M { int v; M(int a, int b) : v(a + b) {} explicit M(int a) : v(a) {} M(std::initializer_list<int> l) : v(-int(l.size())) {} };
int main() {
  Seq<std::vector<int>> a; a.emplace_back(3, 7); a.emplace_front(2, 1); a.emplace(a.nth(1), 4, 9);
  CHECK(a.size() == 3 && a[0].size() == 2 && a[1].size() == 4 && a[2].size() == 3 && a[2][0] == 7);
  Seq<std::string> s; s.emplace(s.begin(), 5, 'x'); CHECK(s[0] == "xxxxx"); s.emplace_back("ab", 1); CHECK(s[1] == "a");
  Seq<M> m; m.emplace_back(3, 4); m.emplace_front(5); m.emplace(m.nth(1), std::initializer_list<int>{1, 2, 3}); m.push_back({1, 2}); m.insert(m.nth(0), {{9}, {9, 9}});
  CHECK(m.size() == 6 && m[2].v == 5 && m[3].v == -3 && m[4].v == 7 && m[5].v == -2);
  m.resize(9, M(1, 1)); CHECK(m[8].v == 2);
  copying<Seq<M>>([](int i) { return M(i); }, [](const M& x) { return x.v; });
}
