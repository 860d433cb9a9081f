// An element whose every converting constructor is explicit, with several arguments.
#include "common.hpp"
struct M { int v; explicit M(int a, int b, int c) : v(a + b + c) {} explicit M(const char*) : v(-1) {} };
int main() {
  copying<Seq<M>>([](int i) { return M(i, 0, 0); }, [](const M& m) { return m.v; });
  Seq<M> a; a.emplace_back(1, 2, 3); a.emplace_front(1, 1, 1); a.emplace(a.nth(1), "x"); CHECK(a[0].v == 3 && a[1].v == -1 && a[2].v == 6);
}
