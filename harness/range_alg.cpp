// G02: a range algorithm is its iterator algorithm over the whole range
#include "pbt.hpp"
#include <algorithm>
#include <numeric>
#include <list>
#include <random>
#include <sprout/array.hpp>
#include <sprout/range/algorithm.hpp>
#include <sprout/range/numeric.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/numeric.hpp>
#include <sprout/container.hpp>
#include <sprout/functional.hpp>
#include <sprout/random.hpp>
using namespace pbt;
namespace rg = sprout::range;
typedef std::vector<int> V;
typedef sprout::array<int, 6> A6;
#ifndef PART
#define PART 0
#endif

struct Mod { int m, r; bool operator()(int k) const { return ((k % m) + m) % m == r; } };
struct Twice { int operator()(int x) const { return 2 * x + 1; } };
struct Mix { int operator()(int x, int y) const { return (10 * x + y) % 1000003; } };
struct Cls { int m; bool operator()(int a, int b) const { return (a + 90) % m == (b + 90) % m; } };
typedef std::greater<int> Gr;

struct BVec { typedef std::vector<int> C; static C make(V const& v) { return v; } static size_t size(G& g) { return g.size(9); } };
struct BList { typedef std::list<int> C; static C make(V const& v) { return C(v.begin(), v.end()); } static size_t size(G& g) { return g.size(9); } };
struct BArr { typedef A6 C; static C make(V const& v) { C a; std::copy(v.begin(), v.end(), a.begin()); return a; } static size_t size(G&) { return 6; } };
static V data(G& g, size_t n) { V v; int span = g.flag() ? 2 : 9; for (size_t i = 0; i < n; ++i) v.push_back(g.irange(-1, span)); if (n > 1) g.nontrivial(); return v; }

template<class A, class B> static auto same(A const& a, B const& b, int) -> decltype(bool(a == b)) { return a == b; }
template<class A, class B> static auto same(A const& a, B const& b, long) -> decltype(bool(a.first == b.first)) { return a.first == b.first && a.second == b.second; }
template<class A, class B> static auto same(A const& a, B const& b, char) -> decltype(bool(a.begin() == b.first)) { return a.begin() == b.first && a.end() == b.second; }
template<class A, class B> struct SameImpl { };
struct Rank3 {}; struct Rank2 : Rank3 {}; struct Rank1 : Rank2 {};
template<class A, class B> static auto eqv(A const& a, B const& b, Rank1) -> decltype(bool(a.begin() == b.first)) { return a.begin() == b.first && a.end() == b.second; }
template<class A, class B> static auto eqv(A const& a, B const& b, Rank2) -> decltype(bool(a.first == b.first)) { return a.first == b.first && a.second == b.second; }
template<class A, class B> static auto eqv(A const& a, B const& b, Rank3) -> decltype(bool(a == b)) { return a == b; }
#define EQ(a, b) CHECK(eqv(a, b, Rank1()))

#define B1 sprout::begin(r), sprout::end(r)
#define B2 sprout::begin(s), sprout::end(s)
// result, and (for those that return a position) the ranges from the position to the end and from the beginning to the position
#define VAL(name, args, iargs) EQ(rg::name args, sprout::name iargs);
#define POS(name, args, iargs) { auto pos_ = sprout::name iargs; CHECK(rg::name args == pos_); \
	auto q = rg::name<rg::return_found_end> args; CHECK(q.begin() == pos_); CHECK(q.end() == r.end()); auto t = rg::name<rg::return_begin_found> args; CHECK(t.begin() == r.begin()); CHECK(t.end() == pos_); }
#define U(...) (__VA_ARGS__)
template<class B> static void one(G& g) {
	V d = data(g, B::size(g)); int x = g.irange(-1, 9); Mod p{g.irange(1, 3), 0}; p.r = g.irange(0, 1); Cls c{g.irange(1, 4)}; int n = g.irange(0, 3); g.note("data", d); g.note("x", x); g.note("pred", p.m * 10 + p.r); g.note("n", n);
	typename B::C r = B::make(d);
	VAL(all_of, U(r, p), U(B1, p)) VAL(any_of, U(r, p), U(B1, p)) VAL(none_of, U(r, p), U(B1, p)) VAL(one_of, U(r, p), U(B1, p))
	VAL(all_of_equal, U(r, x), U(B1, x)) VAL(any_of_equal, U(r, x), U(B1, x)) VAL(none_of_equal, U(r, x), U(B1, x)) VAL(one_of_equal, U(r, x), U(B1, x))
	VAL(count, U(r, x), U(B1, x)) VAL(count_if, U(r, p), U(B1, p)) VAL(is_partitioned, U(r, p), U(B1, p)) VAL(is_sorted, U(r), U(B1)) VAL(is_sorted, U(r, Gr()), U(B1, Gr()))
	VAL(is_increasing, U(r), U(B1)) VAL(is_decreasing, U(r), U(B1)) VAL(is_strictly_increasing, U(r), U(B1)) VAL(is_strictly_decreasing, U(r), U(B1))
	POS(adjacent_find, U(r), U(B1)) POS(adjacent_find, U(r, c), U(B1, c)) POS(find, U(r, x), U(B1, x)) POS(find_if, U(r, p), U(B1, p)) POS(find_if_not, U(r, p), U(B1, p))
	POS(is_sorted_until, U(r), U(B1)) POS(is_sorted_until, U(r, Gr()), U(B1, Gr())) POS(max_element, U(r), U(B1)) POS(max_element, U(r, Gr()), U(B1, Gr())) POS(min_element, U(r), U(B1)) POS(min_element, U(r, Gr()), U(B1, Gr()))
	VAL(minmax_element, U(r), U(B1)) VAL(minmax_element, U(r, Gr()), U(B1, Gr())) POS(search_n, U(r, n, x), U(B1, n, x)) POS(search_n, U(r, n, x, c), U(B1, n, x, c))
	VAL(accumulate, U(r, x), U(B1, x)) VAL(accumulate, U(r, x, Mix()), U(B1, x, Mix())) VAL(reduce, U(r), U(B1)) VAL(reduce, U(r, x), U(B1, x)) VAL(reduce, U(r, x, std::plus<int>()), U(B1, x, std::plus<int>()))
	VAL(transform_reduce, U(r, x, std::plus<int>(), Twice()), U(B1, x, std::plus<int>(), Twice()))
	V e = d; std::stable_partition(e.begin(), e.end(), p); { typename B::C r = B::make(e); VAL(partition_point, U(r, p), U(B1, p)) VAL(is_partitioned, U(r, p), U(B1, p)) }
	std::sort(e.begin(), e.end()); { typename B::C r = B::make(e); POS(lower_bound, U(r, x), U(B1, x)) POS(upper_bound, U(r, x), U(B1, x)) VAL(binary_search, U(r, x), U(B1, x)) VAL(equal_range, U(r, x), U(B1, x)) VAL(is_sorted, U(r), U(B1)) VAL(is_increasing, U(r), U(B1)) }
	std::reverse(e.begin(), e.end()); { typename B::C r = B::make(e); POS(lower_bound, U(r, x, Gr()), U(B1, x, Gr())) POS(upper_bound, U(r, x, Gr()), U(B1, x, Gr())) VAL(binary_search, U(r, x, Gr()), U(B1, x, Gr())) VAL(equal_range, U(r, x, Gr()), U(B1, x, Gr())) VAL(is_decreasing, U(r), U(B1)) }
}
template<class B> static void heaps(G& g) { V d = data(g, B::size(g)); if (g.flag()) std::make_heap(d.begin(), d.begin() + long(g.draw(d.size() + 1))); g.note("data", d); typename B::C r = B::make(d);
	VAL(is_heap, U(r), U(B1)) VAL(is_heap, U(r, Gr()), U(B1, Gr())) POS(is_heap_until, U(r), U(B1)) POS(is_heap_until, U(r, Gr()), U(B1, Gr())) }
template<class B> static void two(G& g) {
	V d = data(g, B::size(g)), o = data(g, g.size(6)); if (g.flag()) { o = d; std::rotate(o.begin(), o.begin() + long(g.draw(o.size() + 1)), o.end()); } else if (g.flag() && !d.empty()) { size_t a = g.draw(d.size()), b = a + g.draw(d.size() - a + 1); o = V(d.begin() + long(a), d.begin() + long(b)); }
	int x = g.irange(-9, 9); Cls c{g.irange(1, 4)}; g.note("data", d); g.note("other", o); typename B::C r = B::make(d); V s = o;
	POS(find_end, U(r, s), U(B1, B2)) POS(find_end, U(r, s, c), U(B1, B2, c)) POS(find_first_of, U(r, s), U(B1, B2)) POS(find_first_of, U(r, s, c), U(B1, B2, c)) POS(search, U(r, s), U(B1, B2)) POS(search, U(r, s, c), U(B1, B2, c))
	VAL(lexicographical_compare, U(r, s), U(B1, B2)) VAL(lexicographical_compare, U(r, s, Gr()), U(B1, B2, Gr())) VAL(tristate_lexicographical_compare, U(r, s), U(B1, B2)) VAL(tristate_lexicographical_compare, U(r, s, Gr()), U(B1, B2, Gr()))
	// these take the second range to be at least as long as the first
	{ V f = d; if (g.flag()) std::shuffle(f.begin(), f.end(), std::minstd_rand(unsigned(g.draw(1000)))); if (!f.empty() && g.flag()) f[g.draw(f.size())] = x; size_t k = g.draw(3); for (size_t i = 0; i < k; ++i) f.push_back(x); g.note("long", f); V s = f; 
	VAL(equal, U(r, s), U(B1, sprout::begin(s))) VAL(equal, U(r, s, c), U(B1, sprout::begin(s), c)) VAL(is_permutation, U(r, s), U(B1, sprout::begin(s))) VAL(is_permutation, U(r, s, c), U(B1, sprout::begin(s), c))
	VAL(mismatch, U(r, s), U(B1, sprout::begin(s))) VAL(mismatch, U(r, s, c), U(B1, sprout::begin(s), c)) }
	V e = d, f = o; std::sort(e.begin(), e.end()); std::sort(f.begin(), f.end());
	{ typename B::C r = B::make(e); V s = f; VAL(includes, U(r, s), U(B1, B2)) 
	  VAL(find_intersection, U(r, s), U(B1, B2)) VAL(find_symmetric_difference, U(r, s), U(B1, B2)) VAL(next_intersection, U(r, s), U(B1, B2)) VAL(next_symmetric_difference, U(r, s), U(B1, B2)) VAL(next_union, U(r, s), U(B1, B2)) VAL(next_difference, U(r, s), U(B1, B2)) VAL(find_difference, U(r, s), U(B1, B2)) }
	std::reverse(e.begin(), e.end()); std::reverse(f.begin(), f.end());
	{ typename B::C r = B::make(e); V s = f; VAL(includes, U(r, s, Gr()), U(B1, B2, Gr())) VAL(find_intersection, U(r, s, Gr()), U(B1, B2, Gr())) VAL(next_union, U(r, s, Gr()), U(B1, B2, Gr())) VAL(find_difference, U(r, s, Gr()), U(B1, B2, Gr())) }
	o.resize(d.size()); s = o; VAL(inner_product, U(r, s, x), U(B1, sprout::begin(s), x)) VAL(transform_reduce, U(r, s, x), U(B1, sprout::begin(s), x))
}
#if PART == 0 || PART == 1
PROP_INST(one_vec, 2, one<BVec>) PROP_INST(one_list, 1, one<BList>) PROP_INST(one_arr, 2, one<BArr>)
PROP_INST(heaps_vec, 1, heaps<BVec>) PROP_INST(heaps_arr, 1, heaps<BArr>)
PROP_INST(two_vec, 2, two<BVec>) PROP_INST(two_list, 1, two<BList>) PROP_INST(two_arr, 2, two<BArr>)
#endif
#define C1 r.begin(), r.end()
#define C2 s.begin(), s.end()
#if PART == 0 || PART == 2
// results in a new container: with a destination given, and (fixed) with its type given
template<class R> static V vec(R const& r) { return V(sprout::begin(r), sprout::end(r)); }
template<class R> static auto veca(R const& r, int) -> decltype(vec(r.first)) { V a = vec(r.first), b = vec(r.second); a.push_back(777); a.insert(a.end(), b.begin(), b.end()); return a; }
template<class R> static V veca(R const& r, long) { return vec(r); }
#define FX(name, args, iargs) CHECK_EQ(veca(rg::fixed::name args, 0), veca(sprout::fixed::name iargs, 0)); CHECK_EQ(veca(rg::fit::name args, 0), veca(sprout::fit::name iargs, 0));
#define FT(name, args, iargs) CHECK_EQ(veca(rg::fixed::name<A4> args, 0), veca(sprout::fixed::name<A4> iargs, 0));
typedef sprout::array<int, 4> A4;
template<class B> static void fixed1(G& g) {
	V d = data(g, B::size(g)); int x = g.irange(-1, 9), y = g.irange(-9, 9); Mod p{g.irange(1, 3), 0}; p.r = g.irange(0, 1); Cls c{g.irange(1, 4)}; g.note("data", d); g.note("x", x); g.note("y", y);
	typename B::C r = B::make(d); sprout::array<int, 7> o; for (int& z : o) z = g.irange(20, 29); std::plus<int> pl;
	FX(copy, U(r, o), U(B1, o)) FX(copy_backward, U(r, o), U(B1, o)) FX(copy_if, U(r, o, p), U(B1, o, p)) FX(copy_until, U(r, o, p), U(B1, o, p)) FX(copy_while, U(r, o, p), U(B1, o, p))
	FX(remove_copy, U(r, o, x), U(B1, o, x)) FX(remove_copy_if, U(r, o, p), U(B1, o, p)) FX(replace_copy, U(r, o, x, y), U(B1, o, x, y)) FX(replace_copy_if, U(r, o, p, y), U(B1, o, p, y)) FX(reverse_copy, U(r, o), U(B1, o))
	FX(transform, U(r, o, Twice()), U(B1, o, Twice())) FX(unique_copy, U(r, o), U(B1, o)) FX(unique_copy, U(r, o, c), U(B1, o, c)) FX(partition_copy, U(r, o, p), U(B1, o, p)) FX(stable_partition_copy, U(r, o, p), U(B1, o, p))
	FX(adjacent_difference, U(r, o), U(B1, o)) FX(adjacent_difference, U(r, o, Mix()), U(B1, o, Mix())) FX(partial_sum, U(r, o), U(B1, o)) FX(partial_sum, U(r, o, Mix()), U(B1, o, Mix()))
	FX(exclusive_scan, U(r, o, x), U(B1, o, x)) FX(exclusive_scan, U(r, o, x, Mix()), U(B1, o, x, Mix())) FX(inclusive_scan, U(r, o), U(B1, o)) FX(inclusive_scan, U(r, o, Mix()), U(B1, o, Mix())) FX(inclusive_scan, U(r, o, Mix(), x), U(B1, o, Mix(), x))
	FX(transform_exclusive_scan, U(r, o, x, Mix(), Twice()), U(B1, o, x, Mix(), Twice())) FX(transform_inclusive_scan, U(r, o, Mix(), Twice()), U(B1, o, Mix(), Twice())) FX(transform_inclusive_scan, U(r, o, Mix(), Twice(), x), U(B1, o, Mix(), Twice(), x))
	FT(copy, U(r), U(B1)) FT(copy_backward, U(r), U(B1)) FT(copy_if, U(r, p), U(B1, p)) FT(copy_until, U(r, p), U(B1, p)) FT(copy_while, U(r, p), U(B1, p)) FT(remove_copy, U(r, x), U(B1, x)) FT(remove_copy_if, U(r, p), U(B1, p)) FT(replace_copy, U(r, x, y), U(B1, x, y))
	FT(replace_copy_if, U(r, p, y), U(B1, p, y)) FT(reverse_copy, U(r), U(B1)) FT(transform, U(r, Twice()), U(B1, Twice())) FT(unique_copy, U(r), U(B1)) FT(unique_copy, U(r, c), U(B1, c)) FT(partition_copy, U(r, p), U(B1, p)) FT(stable_partition_copy, U(r, p), U(B1, p))
	FT(adjacent_difference, U(r), U(B1)) FT(adjacent_difference, U(r, Mix()), U(B1, Mix())) FT(partial_sum, U(r), U(B1)) FT(partial_sum, U(r, Mix()), U(B1, Mix())) FT(exclusive_scan, U(r, x), U(B1, x)) FT(exclusive_scan, U(r, x, Mix()), U(B1, x, Mix()))
	FT(inclusive_scan, U(r), U(B1)) FT(inclusive_scan, U(r, Mix()), U(B1, Mix())) FT(inclusive_scan, U(r, Mix(), x), U(B1, Mix(), x))
}
template<class B> static void fixed2(G& g) {
	V d = data(g, B::size(g)), q = data(g, g.size(6)), t = d; t.resize(d.size() + 2, 5); if (!t.empty()) std::rotate(t.begin(), t.begin() + long(g.draw(t.size())), t.end()); std::sort(d.begin(), d.end()); std::sort(q.begin(), q.end()); g.note("data", d); g.note("other", q);
	sprout::array<int, 7> o; for (int& z : o) z = g.irange(20, 29);
	{ typename B::C r = B::make(d); V s = t; FX(transform, U(r, s, o, Mix()), U(B1, sprout::begin(s), o, Mix())) FT(transform, U(r, s, Mix()), U(B1, sprout::begin(s), Mix())) }
#define SETS(name) { typename B::C r = B::make(d); V s = q; FX(name, U(r, s, o), U(B1, B2, o)) FT(name, U(r, s), U(B1, B2)) V d2(d.rbegin(), d.rend()); V q2(q.rbegin(), q.rend()); r = B::make(d2); s = q2; FX(name, U(r, s, o, Gr()), U(B1, B2, o, Gr())) FT(name, U(r, s, Gr()), U(B1, B2, Gr())) }
	SETS(merge) SETS(set_union) SETS(set_intersection) SETS(set_difference) SETS(set_symmetric_difference)
}
PROP_INST(fixed1_vec, 2, fixed1<BVec>) PROP_INST(fixed1_arr, 2, fixed1<BArr>) PROP_INST(fixed1_list, 1, fixed1<BList>) PROP_INST(fixed2_vec, 2, fixed2<BVec>) PROP_INST(fixed2_arr, 2, fixed2<BArr>)
#endif
#if PART == 0 || PART == 3
// in place, and into an iterator
template<class C> static V vec(C const& c) { return V(c.begin(), c.end()); }
#define MUT(name, args, iargs) { typename B::C r = B::make(d), t = r; rg::name args; { typename B::C& r = t; sprout::name iargs; } CHECK_EQ(vec(r), vec(t)); }
#define POSM(name, args, iargs) { typename B::C r = B::make(d), t = r; auto i = rg::name args; long n = std::distance(r.begin(), i); { typename B::C& r = t; auto j = sprout::name iargs; CHECK_EQ(n, long(std::distance(r.begin(), j))); } CHECK_EQ(vec(r), vec(t)); }
#define BOOLM(name, args, iargs) { typename B::C r = B::make(d), t = r; bool b = rg::name args; { typename B::C& r = t; CHECK_EQ(b, bool(sprout::name iargs)); } CHECK_EQ(vec(r), vec(t)); }
template<class B> static void inplace(G& g) {
	V d = data(g, B::size(g)); int x = g.irange(-1, 9), y = g.irange(-9, 9); Mod p{g.irange(1, 3), 0}; p.r = g.irange(0, 1); Cls c{g.irange(1, 4)}; size_t k = g.draw(d.size() + 1); g.note("data", d); g.note("x", x); g.note("y", y); g.note("k", k);
	MUT(fill, U(r, x), U(C1, x)) MUT(replace, U(r, x, y), U(C1, x, y)) MUT(replace_if, U(r, p, y), U(C1, p, y)) MUT(reverse, U(r), U(C1)) POSM(remove, U(r, x), U(C1, x)) POSM(remove_if, U(r, p), U(C1, p)) POSM(unique, U(r), U(C1)) POSM(unique, U(r, c), U(C1, c))
	POSM(rotate, U(r, std::next(r.begin(), long(k))), U(r.begin(), std::next(r.begin(), long(k)), r.end())) POSM(partition, U(r, p), U(C1, p)) POSM(stable_partition, U(r, p), U(C1, p)) BOOLM(next_permutation, U(r), U(C1)) BOOLM(prev_permutation, U(r), U(C1)) BOOLM(next_permutation, U(r, Gr()), U(C1, Gr())) BOOLM(prev_permutation, U(r, Gr()), U(C1, Gr()))
	{ struct Cnt { int n; int operator()() { return n += 3; } }; MUT(generate, U(r, Cnt{x}), U(C1, Cnt{x})) }
	MUT(iota, U(r, x), U(C1, x))
	{ V e = d; std::sort(e.begin(), e.begin() + long(k)); std::sort(e.begin() + long(k), e.end()); std::swap(d, e); MUT(inplace_merge, U(r, std::next(r.begin(), long(k))), U(r.begin(), std::next(r.begin(), long(k)), r.end()))
	  std::reverse(d.begin(), d.begin() + long(k)); std::reverse(d.begin() + long(k), d.end()); MUT(inplace_merge, U(r, std::next(r.begin(), long(k)), Gr()), U(r.begin(), std::next(r.begin(), long(k)), r.end(), Gr())) }
	{ typename B::C r = B::make(d); V a, b; struct Acc { V* v; void operator()(int z) const { v->push_back(z); } }; rg::for_each(r, Acc{&a}); CHECK_EQ(a, d); }
	{ V q = data(g, d.size() + g.draw(3)), q2 = q; typename B::C r = B::make(d), t = r; rg::swap_ranges(r, q); sprout::swap_ranges(t.begin(), t.end(), q2.begin()); CHECK_EQ(vec(r), vec(t)); CHECK_EQ(q, q2); }
}
template<class B> static void sorts(G& g) {
	V d = data(g, B::size(g)); size_t k = g.draw(d.size() + 1); unsigned seed = unsigned(g.draw(1000)); g.note("data", d); g.note("k", k);
	MUT(sort, U(r), U(C1)) MUT(sort, U(r, Gr()), U(C1, Gr())) MUT(stable_sort, U(r), U(C1)) MUT(stable_sort, U(r, Gr()), U(C1, Gr())) MUT(partial_sort, U(r, std::next(r.begin(), long(k))), U(r.begin(), std::next(r.begin(), long(k)), r.end())) MUT(partial_sort, U(r, std::next(r.begin(), long(k)), Gr()), U(r.begin(), std::next(r.begin(), long(k)), r.end(), Gr()))
	MUT(nth_element, U(r, std::next(r.begin(), long(k))), U(r.begin(), std::next(r.begin(), long(k)), r.end())) MUT(nth_element, U(r, std::next(r.begin(), long(k)), Gr()), U(r.begin(), std::next(r.begin(), long(k)), r.end(), Gr()))
	MUT(make_heap, U(r), U(C1)) MUT(make_heap, U(r, Gr()), U(C1, Gr()))
	if (!d.empty()) { V e = d; std::make_heap(e.begin(), e.end() - 1); std::swap(d, e); MUT(push_heap, U(r), U(C1)) std::make_heap(d.begin(), d.end()); MUT(pop_heap, U(r), U(C1)) MUT(sort_heap, U(r), U(C1))
	  std::make_heap(d.begin(), d.end() - 1, Gr()); MUT(push_heap, U(r, Gr()), U(C1, Gr())) std::make_heap(d.begin(), d.end(), Gr()); MUT(pop_heap, U(r, Gr()), U(C1, Gr())) MUT(sort_heap, U(r, Gr()), U(C1, Gr())) }
	MUT(shuffle, U(r, sprout::random::minstd_rand(seed + 1)), U(C1, sprout::random::minstd_rand(seed + 1)))
	{ V o(g.draw(8)), o2 = o; typename B::C r = B::make(d); long n = rg::partial_sort_copy(r, o) - o.begin(); CHECK_EQ(n, long(sprout::partial_sort_copy(C1, o2.begin(), o2.end()) - o2.begin())); CHECK_EQ(o, o2); n = rg::partial_sort_copy(r, o, Gr()) - o.begin(); CHECK_EQ(n, long(sprout::partial_sort_copy(C1, o2.begin(), o2.end(), Gr()) - o2.begin())); CHECK_EQ(o, o2); }
}
static int* outp(int* p) { return p; }
template<class P> static int* outp(P const& p) { return p.second; }
#define OUT(name, args, iargs) { V z(40, 99), z2 = z; int* o = z.data(); auto e1 = rg::name args; long n = outp(e1) - z.data(); o = z2.data(); auto e2 = sprout::name iargs; CHECK_EQ(n, long(outp(e2) - z2.data())); CHECK_EQ(z, z2); }
template<class B> static void out1(G& g) {
	V d = data(g, B::size(g)); int x = g.irange(-1, 9), y = g.irange(-9, 9); Mod p{g.irange(1, 3), 0}; p.r = g.irange(0, 1); Cls c{g.irange(1, 4)}; g.note("data", d); g.note("x", x); g.note("y", y); typename B::C r = B::make(d);
	OUT(copy, U(r, o), U(C1, o)) OUT(copy_if, U(r, o, p), U(C1, o, p)) OUT(copy_until, U(r, o, p), U(C1, o, p)) OUT(copy_while, U(r, o, p), U(C1, o, p)) OUT(copy_backward, U(r, o + 30), U(C1, o + 30)) OUT(move, U(r, o), U(C1, o)) OUT(move_backward, U(r, o + 30), U(C1, o + 30))
	OUT(remove_copy, U(r, o, x), U(C1, o, x)) OUT(remove_copy_if, U(r, o, p), U(C1, o, p)) OUT(replace_copy, U(r, o, x, y), U(C1, o, x, y)) OUT(replace_copy_if, U(r, o, p, y), U(C1, o, p, y)) OUT(reverse_copy, U(r, o), U(C1, o)) OUT(transform, U(r, o, Twice()), U(C1, o, Twice())) OUT(unique_copy, U(r, o), U(C1, o)) OUT(unique_copy, U(r, o, c), U(C1, o, c))
	OUT(adjacent_difference, U(r, o), U(C1, o)) OUT(adjacent_difference, U(r, o, Mix()), U(C1, o, Mix())) OUT(partial_sum, U(r, o), U(C1, o)) OUT(partial_sum, U(r, o, Mix()), U(C1, o, Mix())) OUT(exclusive_scan, U(r, o, x), U(C1, o, x)) OUT(exclusive_scan, U(r, o, x, Mix()), U(C1, o, x, Mix())) OUT(inclusive_scan, U(r, o), U(C1, o)) OUT(inclusive_scan, U(r, o, Mix()), U(C1, o, Mix())) OUT(inclusive_scan, U(r, o, Mix(), x), U(C1, o, Mix(), x))
	OUT(transform_exclusive_scan, U(r, o, x, Mix(), Twice()), U(C1, o, x, Mix(), Twice())) OUT(transform_inclusive_scan, U(r, o, Mix(), Twice()), U(C1, o, Mix(), Twice())) OUT(transform_inclusive_scan, U(r, o, Mix(), Twice(), x), U(C1, o, Mix(), Twice(), x))
}
template<class B> static void out2(G& g) {
	V d = data(g, B::size(g)), q = data(g, g.size(6)), t = d; std::sort(d.begin(), d.end()); std::sort(q.begin(), q.end()); g.note("data", d); g.note("other", q);
	{ typename B::C r = B::make(d); V s = t; OUT(transform, U(r, s, o, Mix()), U(C1, s.begin(), o, Mix())) }
#define SETM(name) { typename B::C r = B::make(d); V s = q; OUT(name, U(r, s, o), U(C1, C2, o)) V d2(d.rbegin(), d.rend()); V q2(q.rbegin(), q.rend()); r = B::make(d2); s = q2; OUT(name, U(r, s, o, Gr()), U(C1, C2, o, Gr())) }
	SETM(merge) SETM(set_union) SETM(set_intersection) SETM(set_difference) SETM(set_symmetric_difference)
}
PROP_INST(inplace_vec, 2, inplace<BVec>) PROP_INST(inplace_arr, 2, inplace<BArr>) PROP_INST(inplace_list, 1, inplace<BList>) PROP_INST(sorts_vec, 1, sorts<BVec>) PROP_INST(sorts_arr, 1, sorts<BArr>) PROP_INST(out1_vec, 2, out1<BVec>) PROP_INST(out1_list, 1, out1<BList>) PROP_INST(out2_vec, 2, out2<BVec>) PROP_INST(out2_arr, 1, out2<BArr>)
#endif
