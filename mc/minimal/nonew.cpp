// An element with operators new of its own that must not be used to build it in place.
#include "common.hpp"
struct M { int v; M() : v(0) {} explicit M(int i) : v(i) {} static void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void*) = delete; static void operator delete(void*) {} };
int main() { copying<Seq<M>>([](int i) { return M(i); }, [](const M& m) { return m.v; }); defaults<Seq<M>>(); }
