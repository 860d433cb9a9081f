#include "common.hpp"
struct M { int v; M() = delete; explicit M(int i) : v(i) {} bool operator==(const M& o) const { return v == o.v; } bool operator<(const M& o) const { return v < o.v; } };
int main() { auto make = [](int i) { return M(i); }; copying<Seq<M>>(make, [](const M& m) { return m.v; }); equality<Seq<M>>(make); ordering<Seq<M>>(make); }
