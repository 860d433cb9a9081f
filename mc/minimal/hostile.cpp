// No use is made of the element's address-of, comma or negation operators.
#include "common.hpp"
struct M {
  int v; explicit M(int i) : v(i) {}
  void operator&() const = delete; void operator&() = delete; void operator!() const = delete;
  template <class U> void operator,(U&&) const = delete;
};
template <class U> void operator,(U&&, const M&) = delete;
int main() { copying<Seq<M>>([](int i) { return M(i); }, [](const M& m) { return m.v; }); }
