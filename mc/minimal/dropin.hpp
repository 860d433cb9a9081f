// Programs written for std::vector or std::deque.  The header comes first and alone.
#include <boost/segmented_tree/seq.hpp>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <scoped_allocator>
#include <sstream>
#include <stack>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif
#if __cplusplus >= 202002L
#include <ranges>
#include <compare>
#endif
#define CHECK(x) do { if (!(x)) { std::printf("%s:%d: %s\n", __FILE__, __LINE__, #x); std::exit(1); } } while (0)
template <class T, class A = std::allocator<T>> using C = boost::segmented_tree::seq<T, A>;
template <class T> bool is(C<T> const& c, std::initializer_list<T> l) { return c.size() == l.size() && std::equal(l.begin(), l.end(), c.begin()); }
