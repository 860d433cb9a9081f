#include "dropin.hpp"
int main() { C<std::string> a(3); a.insert(a.begin(), {}); CHECK(a.size() == 3 || a.size() == 4); a.resize(3); a.push_back({}); a.insert(a.begin(), 2, {}); CHECK(a.size() == 6); a.resize(7, {}); a.push_front({}); a.push_back({"bc", 1}); CHECK(a.size() == 9 && a.back() == "b"); a.emplace(a.begin()); CHECK(a.size() == 10); a.assign({}); a = {}; C<std::pair<int, int>> p; p.push_back({1, 2}); p.insert(p.begin(), {3, 4}); p.insert(p.end(), {{5, 6}, {7, 8}}); CHECK(p.size() == 4 && p[0].first == 3 && p[3].second == 8); }
