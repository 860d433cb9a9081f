#include "common.hpp"
#include <memory>
struct M { int v; explicit M(int i) : v(i) {} M(M&& o) noexcept : v(o.v) {} M& operator=(M&& o) noexcept { v = o.v; return *this; } M(const M&) = delete; M& operator=(const M&) = delete; };
int main() {
  moving<Seq<M>>([](int i) { return M(i); }, [](const M& m) { return m.v; });
  moving<Seq<std::unique_ptr<int>>>([](int i) { return std::unique_ptr<int>(new int(i)); }, [](const std::unique_ptr<int>& p) { return *p; });
}
