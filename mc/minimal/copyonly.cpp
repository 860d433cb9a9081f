#include "common.hpp"
struct M { int v; explicit M(int i) : v(i) {} M(const M& o) : v(o.v) {} M& operator=(const M& o) { v = o.v; return *this; } ~M() {} };
int main() { copying<Seq<M>>([](int i) { return M(i); }, [](const M& m) { return m.v; }); }
