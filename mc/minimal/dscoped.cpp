#include "dropin.hpp"
template <class X> struct Tag { typedef X value_type; int id; explicit Tag(int i = 0) : id(i) {} template <class U> Tag(Tag<U> const& o) : id(o.id) {} X* allocate(std::size_t n) { return static_cast<X*>(::operator new(n * sizeof(X))); } void deallocate(X* p, std::size_t) { ::operator delete(p); } friend bool operator==(Tag const& a, Tag const& b) { return a.id == b.id; } friend bool operator!=(Tag const& a, Tag const& b) { return a.id != b.id; } };
using In = C<int, Tag<int>>; using SA = std::scoped_allocator_adaptor<Tag<In>>; using Out = C<In, SA>;
int main() {
  static_assert(std::uses_allocator<In, Tag<int>>::value, ""); Out a(SA(Tag<In>(7))); a.emplace_back(2u, 1); a.push_back(In{1}); a.emplace_back(); a.resize(5); a.insert(a.begin(), In{1, 2}); a.emplace(a.begin() + 1); for (auto& x : a) CHECK(x.get_allocator().id == 7); CHECK(a.size() == 7 && a[2].size() == 2 && a[0].size() == 2 && a.get_allocator().outer_allocator().id == 7); In b(In{1}, Tag<int>(3)); CHECK(b.get_allocator().id == 3 && b.size() == 1); In c(b, Tag<int>(4)); CHECK(c.get_allocator().id == 4 && c == b); In d({1, 2}, Tag<int>(5)), e(3, Tag<int>(6)), f(3, 1, Tag<int>(7)), g(b.begin(), b.end(), Tag<int>(8)); CHECK(d.get_allocator().id == 5 && e.get_allocator().id == 6 && f.get_allocator().id == 7 && g.get_allocator().id == 8 && e.size() == 3 && f[2] == 1);
}
