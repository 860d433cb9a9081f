// Polymorphic allocators: cannot be assigned, construct elements with themselves.
#include "common.hpp"
#include <memory_resource>
#include <string>
template <class T> using PSeq = boost::segmented_tree::seq<T, std::pmr::polymorphic_allocator<T>, 3 * sizeof(T), 80>;
int main() {
  copying<PSeq<int>>([](int i) { return i; }, [](const int& i) { return i; }); defaults<PSeq<int>>();
  std::pmr::monotonic_buffer_resource r1, r2;
  PSeq<std::pmr::string> a(&r1), b(&r2);
  for (int i = 0; i < 30; ++i) { a.push_back("a string that is too long to be stored in place"); b.emplace_front("another"); }
  for (auto& s : a) CHECK(s.get_allocator().resource() == &r1);
  a = b; CHECK(a == b && a.get_allocator().resource() == &r1); for (auto& s : a) CHECK(s.get_allocator().resource() == &r1);
  a = std::move(b); CHECK(a.size() == 30 && a.get_allocator().resource() == &r1);
  PSeq<std::pmr::string> c(a), d(std::move(a)), e(d, &r2), f(std::move(e), &r1);
  CHECK(c.get_allocator().resource() == std::pmr::get_default_resource() && d.get_allocator().resource() == &r1 && f.get_allocator().resource() == &r1 && f == c);
}
