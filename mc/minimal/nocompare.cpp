#include "common.hpp"
struct M { int v; M() : v(0) {} explicit M(int i) : v(i) {} };
int main() { copying<Seq<M>>([](int i) { return M(i); }, [](const M& m) { return m.v; }); defaults<Seq<M>>(); }
