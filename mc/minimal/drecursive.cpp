#include "dropin.hpp"
struct Node { int v; C<Node> kids; };
struct Json { std::map<std::string, C<Json>> m; C<Json> a; };
int main() { Node n{1, {}}; n.kids.push_back(Node{2, {}}); n.kids.push_back({3, {}}); n.kids[0].kids.push_back({4, {{5, {}}}}); Node c = n; CHECK(c.kids[0].kids[0].kids[0].v == 5 && c.kids.size() == 2); n = std::move(c.kids[0]); CHECK(n.v == 2 && n.kids[0].v == 4); Json j; j.a.resize(3); j.m["x"].push_back(j); CHECK(j.m["x"][0].a.size() == 3); }
