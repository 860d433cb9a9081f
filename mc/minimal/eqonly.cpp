#include "common.hpp"
struct M { int v; explicit M(int i) : v(i) {} };
bool operator==(const M& a, const M& b) { return a.v == b.v; }
int main() { equality<Seq<M>>([](int i) { return M(i); }); }
