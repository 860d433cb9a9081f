#pragma once
#include <boost/segmented_tree/seq.hpp>
#include <cstdio>
#include <cstdlib>
#include <iterator>
#include <utility>
#define CHECK(x) do { if (!(x)) { std::printf("%s:%d: %s\n", __FILE__, __LINE__, #x); std::exit(1); } } while (0)
template <class T> using Seq = boost::segmented_tree::seq<T, std::allocator<T>, 3 * sizeof(T), 80>;
// Everything that asks nothing of an element but that it can be moved.  make(i) gives an element,
// get(e) its number.
template <class S, class Make, class Get> void moving(Make make, Get get) {
  using T = typename S::value_type;
  S a;
  for (int i = 0; i < 40; ++i) {
    switch (i % 4) {
      case 0: a.push_back(make(i)); break;
      case 1: a.push_front(make(i)); break;
      case 2: a.insert(a.nth(a.size() / 2), make(i)); break;
      case 3: a.emplace(a.nth(a.size() / 3), make(i)); break;
    }
  }
  a.emplace_back(make(40)); a.emplace_front(make(41));
  CHECK(a.size() == 42 && !a.empty());
  long sum = 0; for (auto& x : a) sum += get(x);
  CHECK(sum == 41 * 42 / 2);
  CHECK(get(a.front()) == 41 && get(a.back()) == 40 && get(a[0]) == 41 && get(a.at(41)) == 40);
  a.sort([&](const T& x, const T& y) { return get(x) < get(y); });
  for (int i = 0; i < 42; ++i) CHECK(get(a[std::size_t(i)]) == i);
  a.reverse(); CHECK(get(*a.begin()) == 41); CHECK(get(*a.rbegin()) == 0); a.reverse();
  S b(std::move(a)); CHECK(a.empty() && b.size() == 42);
  a = std::move(b); CHECK(b.empty() && a.size() == 42);
  S c(std::move(a), a.get_allocator()); c.swap(a); swap(a, c); a.swap(c);
  for (int i = 0; i < 5; ++i) b.push_back(make(100 + i));
  a.splice(a.nth(7), b, b.nth(2)); a.splice(a.nth(8), b, b.nth(1), b.nth(3)); a.splice(a.cend(), std::move(b));
  CHECK(b.empty() && a.size() == 47 && get(a[7]) == 102);
  a.sort([&](const T& x, const T& y) { return get(x) < get(y); });
  for (int i = 0; i < 5; ++i) b.push_back(make(i));
  a.merge(b, [&](const T& x, const T& y) { return get(x) < get(y); });
  CHECK(a.size() == 52 && b.empty());
  a.unique([&](const T& x, const T& y) { return get(x) == get(y); }); CHECK(a.size() == 47);
  a.remove_if([&](const T& x) { return get(x) % 2 == 1; }); CHECK(a.size() == 24);
  T raw[3] = {make(7), make(8), make(9)};
  a.insert(a.nth(3), std::make_move_iterator(raw), std::make_move_iterator(raw + 3)); CHECK(get(a[3]) == 7 && get(a[5]) == 9);
  a.erase(a.nth(3)); a.erase(a.nth(3), a.nth(5)); a.pop_back(); a.pop_front(); CHECK(a.size() == 22);
  T raw2[2] = {make(1), make(2)};
  a.assign(std::make_move_iterator(raw2), std::make_move_iterator(raw2 + 2)); CHECK(a.size() == 2);
  T raw3[2] = {make(1), make(2)};
  S d(std::make_move_iterator(raw3), std::make_move_iterator(raw3 + 2)); CHECK(d.size() == 2 && get(d[1]) == 2);
  const S& k = d; auto it = k.begin(); it += 1; CHECK(get(*it) == 2 && k.index_of(it) == 1 && get(*(k.end() - 1)) == 2);
  typename S::const_iterator ci = d.begin(); CHECK(ci == d.cbegin() && ci != d.cend() && d.cend() - ci == 2);
  a.clear(); CHECK(a.empty());
}
// Everything that asks no more than that an element can be copied.
template <class S, class Make, class Get> void copying(Make make, Get get) {
  using T = typename S::value_type;
  moving<S>(make, get);
  const T v = make(3);
  S a; a.push_back(v); a.push_front(v); a.insert(a.nth(1), v); a.insert(a.nth(1), 5, v); a.emplace(a.nth(2), v); a.emplace_back(v); a.emplace_front(v);
  CHECK(a.size() == 11);
  for (auto& x : a) CHECK(get(x) == 3);
  a.insert(a.nth(2), {make(4), make(5)}); CHECK(get(a[3]) == 5 && a.size() == 13);
  const T raw[4] = {make(0), make(1), make(2), make(3)};
  a.insert(a.nth(1), raw, raw + 4); CHECK(a.size() == 17 && get(a[2]) == 1);
  a.resize(20, v); a.resize(4, v); CHECK(a.size() == 4);
  a.assign(7, v); CHECK(a.size() == 7); a.assign(raw, raw + 4); CHECK(get(a[3]) == 3); a.assign({make(1), make(2)}); a = {make(1), make(2), make(3)};
  CHECK(a.size() == 3 && get(a[2]) == 3);
  S b(a), c(a, a.get_allocator()), d(5, v), e(raw, raw + 4), f({make(1), make(2)}); c = b; b = e; b = b;
  CHECK(get(c[2]) == 3 && c.size() == 3 && d.size() == 5 && b.size() == 4 && f.size() == 2);
}
template <class S> void defaults() {
  S a(7), b(3, typename S::allocator_type()); a.resize(12); a.resize(2); a.emplace_back(); a.emplace_front(); a.emplace(a.nth(1)); CHECK(a.size() == 5 && b.size() == 3);
}
template <class S, class Make> void equality(Make make) {
  S a, b; for (int i = 0; i < 9; ++i) { a.push_back(make(i % 3)); b.push_front(make((8 - i) % 3)); }
  CHECK(a == b); CHECK(!(a != b));
  a.unique(); CHECK(a == b);
  a.remove(make(1)); CHECK(a.size() == 6 && a != b);
}
template <class S, class Make> void ordering(Make make) {
  S a, b; for (int i = 0; i < 9; ++i) { a.push_back(make(i % 3)); b.push_front(make(5)); }
  CHECK(a < b); CHECK(a <= b); CHECK(b > a); CHECK(b >= a);
  a.sort(); a.merge(b); CHECK(a.size() == 18);
}
