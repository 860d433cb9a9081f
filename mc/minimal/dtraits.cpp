#include "dropin.hpp"
using L = C<int>; using I = L::iterator; using K = L::const_iterator;
template <class X, class Y> using Same = std::is_same<X, Y>;
static_assert(Same<std::iterator_traits<I>::value_type, int>::value && Same<std::iterator_traits<K>::value_type, int>::value && Same<std::iterator_traits<I>::reference, int&>::value && Same<std::iterator_traits<K>::reference, int const&>::value && Same<std::iterator_traits<I>::pointer, int*>::value && Same<std::iterator_traits<K>::pointer, int const*>::value && Same<std::iterator_traits<I>::difference_type, L::difference_type>::value && Same<std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag>::value && Same<std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag>::value, "");
static_assert(Same<L::value_type, int>::value && Same<L::reference, int&>::value && Same<L::const_reference, int const&>::value && Same<L::pointer, int*>::value && Same<L::const_pointer, int const*>::value && Same<L::allocator_type, std::allocator<int>>::value && Same<L::size_type, std::size_t>::value && Same<L::difference_type, std::ptrdiff_t>::value && Same<L::reverse_iterator, std::reverse_iterator<I>>::value && Same<L::const_reverse_iterator, std::reverse_iterator<K>>::value, "");
static_assert(std::is_nothrow_move_constructible<L>::value && std::is_nothrow_move_assignable<L>::value && std::is_nothrow_default_constructible<L>::value && std::is_nothrow_destructible<L>::value && std::is_copy_constructible<L>::value && std::is_copy_assignable<L>::value, "");
static_assert(std::is_convertible<I, K>::value && !std::is_convertible<K, I>::value && !std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value && std::is_assignable<K&, I>::value && std::is_default_constructible<I>::value && std::is_nothrow_copy_constructible<I>::value && std::is_copy_assignable<K>::value, "");
static_assert(std::uses_allocator<L, std::allocator<int>>::value && !std::is_convertible<std::allocator<int>, L>::value && std::is_constructible<L, std::allocator<int>>::value && !std::is_convertible<int, L>::value && std::is_constructible<L, int>::value && std::is_convertible<std::initializer_list<int>, L>::value, "");
static_assert(noexcept(std::declval<L&>().clear()) && noexcept(std::declval<L&>().size()) && noexcept(std::declval<L&>().begin()) && noexcept(std::declval<L&>().cend()) && noexcept(std::declval<L const&>().empty()) && noexcept(std::declval<L&>().swap(std::declval<L&>())) && noexcept(swap(std::declval<L&>(), std::declval<L&>())) && noexcept(std::declval<L&>().get_allocator()), "");
static_assert(Same<decltype(std::declval<L const&>().front()), int const&>::value && Same<decltype(std::declval<L&>().at(0)), int&>::value && Same<decltype(std::declval<L const&>()[0]), int const&>::value && Same<decltype(std::declval<L const&>().begin()), K>::value && Same<decltype(std::declval<L&>().cbegin()), K>::value && Same<decltype(*std::declval<K>()), int const&>::value, "");
static_assert(Same<decltype(std::declval<I>() - std::declval<K>()), std::ptrdiff_t>::value && Same<decltype(std::declval<K>() - std::declval<I>()), std::ptrdiff_t>::value, "");
int main() {}
