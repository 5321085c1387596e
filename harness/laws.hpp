// What a pair of iterators over a known sequence has to do, by category
#ifndef VERIF_LAWS_HPP
#define VERIF_LAWS_HPP
#include "pbt.hpp"
#include <iterator>
#include <vector>
#include <sprout/iterator/operation.hpp>
#include <sprout/iterator/distance.hpp>
#include <sprout/utility/swap.hpp>
using namespace pbt;

template<class It> static auto law_swap(It& a, It& b, int) -> decltype(a.swap(b)) { return a.swap(b); }
template<class It> static void law_swap(It& a, It& b, long) { std::swap(a, b); }
template<class It> struct cat_of { typedef typename std::iterator_traits<It>::iterator_category type; };
template<class It, class T> static void forward_laws(It const first, It const last, std::vector<T> const& e) {
	size_t n = e.size(), k = 0;
	It i = first;
	for (; k <= n && i != last; ++k) { CHECK(k < n); CHECK_EQ(T(*i), e[k]); It& r = ++i; CHECK(&r == &i); }
	CHECK_EQ(k, n); CHECK(i == last); CHECK(!(i != last));
	It j = first; for (k = 0; k < n; ++k) { CHECK(!(j == last)); It o = j++; CHECK_EQ(T(*o), e[k]); }
	CHECK(j == last);
	j = first; for (k = 0; k < n; ++k) { It o = j; CHECK_EQ(T(*o), e[k]); j = sprout::next(o); CHECK_EQ(T(*o), e[k]); CHECK(o != j); }
	CHECK(j == last);
	CHECK_EQ(size_t(sprout::distance(first, last)), n);
	for (k = 0; k <= n; ++k) { It a = sprout::next(first, std::ptrdiff_t(k)); It b = first; sprout::advance(b, std::ptrdiff_t(k)); CHECK(a == b); if (k < n) CHECK_EQ(T(*a), e[k]); else CHECK(a == last); }
	It a = first, b = last; law_swap(a, b, 0); CHECK(a == last); CHECK(b == first); { using std::swap; using sprout::swap; swap(a, b); } CHECK(a == first); CHECK(b == last);
	a = b; CHECK(a == last); It c(first); CHECK(c == first);
}
template<class It, class T> static void bidi_laws(It const first, It const last, std::vector<T> const& e) {
	size_t n = e.size(), k = n;
	It i = last; while (k > 0) { It& r = --i; CHECK(&r == &i); --k; CHECK_EQ(T(*i), e[k]); } CHECK(i == first);
	It j = last; for (k = n; k > 0; --k) { It o = j--; CHECK(o != j); CHECK_EQ(T(*j), e[k - 1]); } CHECK(j == first);
	j = last; for (k = n; k > 0; --k) { j = sprout::prev(j); CHECK_EQ(T(*j), e[k - 1]); } CHECK(j == first);
	for (k = 0; k <= n; ++k) { It a = sprout::prev(last, std::ptrdiff_t(k)); if (k) CHECK_EQ(T(*a), e[n - k]); CHECK_EQ(a == first, k == n); }
	// back and forth from every place
	i = first; for (k = 0; k < n; ++k) { It a = i; ++a; --a; CHECK(a == i); CHECK_EQ(T(*a), e[k]); ++i; It b = i; --b; CHECK_EQ(T(*b), e[k]); ++b; CHECK(b == i); }
}
template<class It, class T> static void random_laws(It const first, It const last, std::vector<T> const& e) {
	typedef std::ptrdiff_t D; D n = D(e.size());
	CHECK_EQ(D(last - first), n); CHECK_EQ(D(first - last), -n);
	for (D i = 0; i <= n; ++i) {
		It a = first + i; CHECK_EQ(D(a - first), i); CHECK_EQ(D(last - a), n - i); CHECK_EQ(a == last, i == n); CHECK(i + first == a); CHECK(last - (n - i) == a);
		if (i < n) { CHECK_EQ(T(*a), e[size_t(i)]); CHECK_EQ(T(first[i]), e[size_t(i)]); }
		for (D j = 0; j <= n; ++j) {
			It b = first; b += j; CHECK_EQ(D(b - a), j - i);
			CHECK_EQ(a == b, i == j); CHECK_EQ(a != b, i != j); CHECK_EQ(a < b, i < j); CHECK_EQ(a > b, i > j); CHECK_EQ(a <= b, i <= j); CHECK_EQ(a >= b, i >= j);
			CHECK(a + (j - i) == b); CHECK(b - (j - i) == a); It c = b; c -= j - i; CHECK(c == a); c += j - i; CHECK(c == b);
			if (j < n) CHECK_EQ(T(a[j - i]), e[size_t(j)]);
			if (j < n) CHECK_EQ(T(*(a + (j - i))), e[size_t(j)]);
			if (i < n) CHECK_EQ(T(*(b - (j - i))), e[size_t(i)]);
		}
	}
}
template<class It, class T> static void laws_(It a, It b, std::vector<T> const& e, std::forward_iterator_tag) { forward_laws(a, b, e); }
template<class It, class T> static void laws_(It a, It b, std::vector<T> const& e, std::input_iterator_tag) { forward_laws(a, b, e); }
template<class It, class T> static void laws_(It a, It b, std::vector<T> const& e, std::bidirectional_iterator_tag) { forward_laws(a, b, e); bidi_laws(a, b, e); }
template<class It, class T> static void laws_(It a, It b, std::vector<T> const& e, std::random_access_iterator_tag) { forward_laws(a, b, e); bidi_laws(a, b, e); random_laws(a, b, e); }
template<class It, class T> static void laws(It a, It b, std::vector<T> const& e) { laws_(a, b, e, typename cat_of<It>::type()); }
#endif
