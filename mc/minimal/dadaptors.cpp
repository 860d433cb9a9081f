#include "dropin.hpp"
int main() {
  std::stack<int, C<int>> s; s.push(1); s.emplace(2); CHECK(s.top() == 2); s.pop(); CHECK(s.top() == 1 && s.size() == 1); std::stack<int, C<int>> t(s), u; CHECK(s == t && !(s < t) && u != s); swap(s, u); CHECK(s.empty() && u == t); std::stack<int, C<int>> w(std::move(u)); CHECK(w.top() == 1); std::stack<int, C<int>> x(C<int>{1, 2}); CHECK(x.top() == 2); std::stack<int, C<int>> al(x, std::allocator<int>()); CHECK(al == x);
  std::queue<int, C<int>> q; q.push(1); q.emplace(2); q.push(3); CHECK(q.front() == 1 && q.back() == 3); q.pop(); CHECK(q.front() == 2); auto r = q; CHECK(r == q && r >= q); r.pop(); CHECK(r > q); std::queue<int, C<int>> qe; CHECK(qe.empty());
  std::priority_queue<int, C<int>> p; for (int i : {3, 9, 1, 7}) p.push(i); p.emplace(8); CHECK(p.top() == 9); p.pop(); CHECK(p.top() == 8 && p.size() == 4); C<int> v{4, 6, 5}; std::priority_queue<int, C<int>, std::greater<int>> g(std::greater<int>(), v); CHECK(g.top() == 4); std::priority_queue<int, C<int>> h(v.begin(), v.end()); CHECK(h.top() == 6); std::priority_queue<int, C<int>> mv(std::less<int>(), std::move(v)); CHECK(mv.top() == 6); swap(h, mv);
}
