#include "dropin.hpp"
struct Nd { int v; explicit Nd(int x) : v(x) {} };
struct Conv { operator int() const { return 1; } };
enum E { A1, B1 };
int main() {
  C<Nd> a; a.emplace_back(3); a.emplace(a.begin(), 1); CHECK(a[0].v == 1 && a.size() == 2); C<int> b; b.push_back(Conv{}); b.insert(b.begin(), Conv{}); b.insert(b.begin(), 3, Conv{}); CHECK(b.size() == 5); C<double> d(3, 1); d.assign(2, 3); d.insert(d.begin(), 2, 1); CHECK(is(d, {1.0, 1.0, 3.0, 3.0})); C<unsigned char> u(3u, 'c'); u.insert(u.begin(), 3, 4); u.assign(3, 4); CHECK(u.size() == 3 && u[0] == 4); C<long> l(3, 4); l.resize(4, 1); CHECK(is(l, {4L, 4L, 4L, 1L})); C<std::size_t> z(2, 5); CHECK(z.size() == 2 && z[0] == 5); C<short> sh(short(2), short(7)); CHECK(sh.size() == 2 && sh[1] == 7); sh.insert(sh.end(), short(3), short(1)); sh.assign(short(1), short(2)); CHECK(sh.size() == 1); C<void*> vp; vp.push_back(nullptr); vp.insert(vp.begin(), nullptr); vp.assign(3, nullptr); CHECK(vp.size() == 3); C<std::vector<bool>> vb(2, std::vector<bool>(2)); CHECK(vb[1].size() == 2); C<E> ee(3, A1); ee.insert(ee.begin(), 2, B1); CHECK(ee.size() == 5 && ee[0] == B1); C<bool> cb(3, true); bool& rb = cb[0]; rb = false; CHECK(!cb[0] && &cb[0] == &rb); C<std::string> s(std::size_t(2), "a"); CHECK(s[1] == "a");
}
