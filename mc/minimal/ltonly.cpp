#include "common.hpp"
struct M { int v; explicit M(int i) : v(i) {} M(M&&) = default; M& operator=(M&&) = default; };
bool operator<(const M& a, const M& b) { return a.v < b.v; }
int main() { ordering<Seq<M>>([](int i) { return M(i); }); }
