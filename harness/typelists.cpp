// Y01: compile-time lists of types and indexes compute what the same run-time lists do.
#include "pbt.hpp"
#include <sprout/type.hpp>
#include <sprout/type/operation.hpp>
#include <sprout/type/algorithm.hpp>
#include <sprout/type/functional.hpp>
#include <sprout/type/seq/algorithm.hpp>
#include <sprout/type/integral_array.hpp>
#include <sprout/type/uniform_types.hpp>
#include <sprout/type/joint_types.hpp>
#include <sprout/type/tuple.hpp>
#include <sprout/type/iterator.hpp>
#include <sprout/tpp/algorithm.hpp>
#include <sprout/index_tuple.hpp>
#include <sprout/tuple.hpp>
#include <map>
#include <tuple>
#include <numeric>
#include <algorithm>
namespace ty = sprout::types;
typedef std::vector<int> V;

// ---- deterministic pseudo-random lists, built by recursion of our own
constexpr unsigned mix(unsigned a) { return (a ^ (a >> 15)) * 0x2c1b3c6du; }
constexpr unsigned rnd(unsigned seed, unsigned i) { return mix(mix(mix(seed * 7919u + i * 104729u + 12345u) ^ 0x9e3779b9u) + i) >> 7; }
template<int I> struct K : sprout::integral_constant<int, I> {};
template<int... Is> struct Ints {};
template<unsigned Seed, unsigned N, int Range, int... Is> struct gen_ints { typedef typename gen_ints<Seed, N - 1, Range, (int)(rnd(Seed, N) % Range), Is...>::type type; };
template<unsigned Seed, int Range, int... Is> struct gen_ints<Seed, 0, Range, Is...> { typedef Ints<Is...> type; };
template<int I> using C = sprout::integral_constant<int, I>;
template<int Kind, typename L> struct as_list;
template<int... Is> struct as_list<0, Ints<Is...> > { typedef ty::type_tuple<C<Is>...> type; };
template<int... Is> struct as_list<1, Ints<Is...> > { typedef sprout::tuples::tuple<C<Is>...> type; };
template<int... Is> struct as_list<2, Ints<Is...> > { typedef std::tuple<C<Is>...> type; };
template<int... Is> struct as_list<3, Ints<Is...> > { typedef ty::integral_array<int, Is...> type; };
template<int... Is> static V values(Ints<Is...>) { return V{Is...}; }

template<typename T, std::size_t I, std::size_t N> struct reader {
	static void go(V& v) { v.push_back((int)ty::tuple_element<I, T>::type::value); reader<T, I + 1, N>::go(v); }
};
template<typename T, std::size_t N> struct reader<T, N, N> { static void go(V&) {} };
template<typename T> static V read() { V v; reader<T, 0, ty::tuple_size<T>::value>::go(v); return v; }
// second, independent way of reading: pattern matching
template<typename T> struct matched;
template<template<typename...> class T, typename... Ts> struct matched<T<Ts...> > { static V get() { return V{(int)Ts::value...}; } };
template<int... Is> struct matched<ty::integral_array<int, Is...> > { static V get() { return V{Is...}; } };

struct odd { template<typename T> struct apply : sprout::bool_constant<T::value % 2 != 0> {}; };
struct twice { template<typename T> struct apply : sprout::integral_constant<int, T::value * 2 + 1> {}; };
struct digits { template<typename T, typename U> struct apply : sprout::integral_constant<int, (T::value * 7 + U::value) % 10007> {}; };
struct greater_ { template<typename T, typename U> struct apply : sprout::bool_constant<(T::value > U::value)> {}; };

struct Row {
	V a, b; int kind, x;
	std::map<std::string, V> lists; std::map<std::string, long> nums;
	std::map<std::string, V> want; std::map<std::string, long> wantn;
};
template<typename L, bool NonEmpty> struct nonempty_ops {
	static void go(Row& r) {
		r.nums["front"] = ty::front<L>::type::value; r.wantn["front"] = r.a.front();
		r.nums["back"] = ty::back<L>::type::value; r.wantn["back"] = r.a.back();
		r.lists["pop_front"] = read<typename ty::pop_front<L>::type>(); r.want["pop_front"] = V(r.a.begin() + 1, r.a.end());
		r.lists["pop_back"] = read<typename ty::pop_back<L>::type>(); r.want["pop_back"] = V(r.a.begin(), r.a.end() - 1);
		r.nums["at"] = ty::at<L, ty::tuple_size<L>::value / 2>::type::value; r.wantn["at"] = r.a[r.a.size() / 2];
	}
};
template<typename L> struct nonempty_ops<L, false> { static void go(Row&) {} };
static V vcat(V a, V const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

template<unsigned Seed> static Row make_row() {
	typedef typename gen_ints<Seed, rnd(Seed, 100) % (Seed < 8 ? 3 : 9), 5>::type LI;
	typedef typename gen_ints<Seed + 5000, rnd(Seed, 101) % 6, 5>::type RI;
	enum { kind = Seed % 4, x = rnd(Seed, 102) % 6 };
	typedef typename as_list<kind, LI>::type L;
	typedef typename as_list<(Seed / 4) % 4, RI>::type M;
	typedef C<x> X;
	Row r; r.a = values(LI()); r.b = values(RI()); r.kind = kind; r.x = x;
	V const& a = r.a; V const& b = r.b;
	std::size_t cnt = std::count(a.begin(), a.end(), (int)x), cnto = std::count_if(a.begin(), a.end(), [](int v) { return v % 2 != 0; });
	r.lists["elements"] = read<L>(); r.want["elements"] = a;
	r.lists["push_back"] = read<typename ty::push_back<L, C<8>, C<9> >::type>(); r.want["push_back"] = vcat(a, V{8, 9});
	r.lists["push_front"] = read<typename ty::push_front<L, C<8>, C<9> >::type>(); r.want["push_front"] = vcat(V{8, 9}, a);
	r.lists["append_back"] = read<typename ty::append_back<L, M>::type>(); r.want["append_back"] = vcat(a, b);
	r.lists["append_front"] = read<typename ty::append_front<L, M>::type>(); r.want["append_front"] = vcat(b, a);
	r.lists["assign"] = read<typename ty::assign<L, M>::type>(); r.want["assign"] = b;
	r.lists["tuple_cat"] = read<typename ty::tuple_cat<L, M, L>::type>(); r.want["tuple_cat"] = vcat(vcat(a, b), a);
	r.lists["tuple_cat5"] = read<typename ty::tuple_cat<L, M, M, ty::type_tuple<C<7> >, L>::type>(); r.want["tuple_cat5"] = vcat(vcat(vcat(vcat(a, b), b), V{7}), a);
	r.nums["size"] = ty::size<L>::value; r.wantn["size"] = (long)a.size();
	r.nums["empty"] = ty::empty<L>::value; r.wantn["empty"] = a.empty();
	r.nums["count"] = ty::count<L, X>::value; r.wantn["count"] = (long)cnt;
	r.nums["count_if"] = ty::count_if<L, odd>::value; r.wantn["count_if"] = (long)cnto;
	r.nums["find_index"] = ty::find_index<L, X>::value; r.wantn["find_index"] = std::find(a.begin(), a.end(), (int)x) - a.begin();
	r.nums["find_index_if"] = ty::find_index_if<L, odd>::value; r.wantn["find_index_if"] = std::find_if(a.begin(), a.end(), [](int v) { return v % 2 != 0; }) - a.begin();
	r.nums["contains"] = ty::contains<L, X>::value; r.wantn["contains"] = cnt != 0;
	r.nums["contains_if"] = ty::contains_if<L, odd>::value; r.wantn["contains_if"] = cnto != 0;
	r.nums["all_of"] = ty::all_of<L, odd>::value; r.wantn["all_of"] = cnto == a.size();
	r.nums["any_of"] = ty::any_of<L, odd>::value; r.wantn["any_of"] = cnto != 0;
	r.nums["none_of"] = ty::none_of<L, odd>::value; r.wantn["none_of"] = cnto == 0;
	r.nums["one_of"] = ty::one_of<L, odd>::value; r.wantn["one_of"] = cnto == 1;
	r.nums["all_of_same"] = ty::all_of_same<L, X>::value; r.wantn["all_of_same"] = cnt == a.size();
	r.nums["any_of_same"] = ty::any_of_same<L, X>::value; r.wantn["any_of_same"] = cnt != 0;
	r.nums["none_of_same"] = ty::none_of_same<L, X>::value; r.wantn["none_of_same"] = cnt == 0;
	r.nums["one_of_same"] = ty::one_of_same<L, X>::value; r.wantn["one_of_same"] = cnt == 1;
	r.nums["accumulate"] = ty::accumulate<L, C<100> >::type::value; r.wantn["accumulate"] = std::accumulate(a.begin(), a.end(), 100);
	r.nums["fold"] = ty::fold<L, C<3>, digits>::type::value; r.wantn["fold"] = std::accumulate(a.begin(), a.end(), 3, [](int t, int u) { return (t * 7 + u) % 10007; });
	V ps(a.size()); std::partial_sum(a.begin(), a.end(), ps.begin());
	r.lists["partial_sum"] = read<typename ty::partial_sum<L>::type>(); r.want["partial_sum"] = ps;
	std::partial_sum(a.begin(), a.end(), ps.begin(), [](int t, int u) { return (t * 7 + u) % 10007; });
	r.lists["partial_sum op"] = read<typename ty::partial_sum<L, digits>::type>(); r.want["partial_sum op"] = ps;
	V tr; for (std::size_t i = 0; i < a.size(); ++i) tr.push_back(a[i] * 2 + 1);
	r.lists["transform"] = read<typename ty::transform<L, twice>::type>(); r.want["transform"] = tr;
	nonempty_ops<L, (ty::tuple_size<L>::value != 0)>::go(r);
	return r;
}
// binary transform needs a second list at least as long
template<unsigned Seed> static void more(Row& r) {
	typedef typename gen_ints<Seed, rnd(Seed, 100) % (Seed < 8 ? 3 : 9), 5>::type LI;
	typedef typename gen_ints<Seed + 9000, 10, 9>::type RI;
	typedef typename as_list<Seed % 4, LI>::type L;
	typedef typename as_list<(Seed / 2) % 4, RI>::type M;
	V a = values(LI()), b = values(RI()), t;
	for (std::size_t i = 0; i < a.size(); ++i) t.push_back((a[i] * 7 + b[i]) % 10007);
	r.lists["transform2"] = read<typename ty::transform<L, M, digits>::type>(); r.want["transform2"] = t;
	// the elements by pattern matching as well
	r.lists["push_back matched"] = matched<typename ty::push_back<ty::type_tuple<C<1> >, typename ty::tuple_element<0, M>::type>::type>::get(); r.want["push_back matched"] = V{1, b[0]};
}

enum { NROW = 96 };
template<unsigned I> struct fill_rows { static void go(std::vector<Row>& v) { fill_rows<I - 1>::go(v); v.push_back(make_row<I - 1>()); more<I - 1>(v.back()); } };
template<> struct fill_rows<0> { static void go(std::vector<Row>&) {} };
static std::vector<Row> const& rows() { static std::vector<Row> v; if (v.empty()) fill_rows<NROW>::go(v); return v; }
static char const* kinds[] = {"types::type_tuple", "sprout::tuple", "std::tuple", "types::integral_array"};
PROP(lists, 3) {
	std::vector<Row> const& rs = rows();
	Row const& r = rs[g.draw(rs.size())];
	g.note("container", std::string(kinds[r.kind])); g.note("list", r.a); g.note("other", r.b); g.note("value", r.x);
	g.nontrivial(r.a.size() > 1);
	std::size_t n = g.draw(r.lists.size() + r.nums.size());
	if (n < r.lists.size()) {
		auto it = r.lists.begin(); std::advance(it, n);
		CHECK_MSG(it->second == r.want.at(it->first), it->first + " gives the list it names");
	}
	else {
		auto it = r.nums.begin(); std::advance(it, n - r.lists.size());
		CHECK_MSG(it->second == r.wantn.at(it->first), it->first + " gives the value it names");
	}
}

// ---------------------------------------------------------------- sorted lists
template<unsigned Seed, unsigned N, int Last, int Dir, int... Is> struct gen_sorted { typedef typename gen_sorted<Seed, N - 1, Last + Dir * (int)(rnd(Seed, N) % 3), Dir, Is..., Last>::type type; };
template<unsigned Seed, int Last, int Dir, int... Is> struct gen_sorted<Seed, 0, Last, Dir, Is...> { typedef Ints<Is...> type; };
struct Bound { V a; int x; bool desc; long lo, hi, ub; };
template<unsigned Seed> static Bound make_bound() {
	enum { desc = Seed % 3 == 2 };
	typedef typename gen_sorted<Seed, rnd(Seed, 7) % 9, desc ? 12 : 1, desc ? -1 : 1>::type LI;
	typedef typename as_list<Seed % 4, LI>::type L;
	typedef C<(int)(rnd(Seed, 8) % 13)> X;
	typedef typename std::conditional<(bool)desc, greater_, ty::less_>::type Cmp;
	Bound b; b.a = values(LI()); b.x = X::value; b.desc = desc;
	b.lo = ty::lower_bound_index<L, X, Cmp>::value; b.hi = ty::upper_bound_index<L, X, Cmp>::value;
	b.ub = desc ? -1 : (long)ty::upper_bound_index<L, X>::value;
	return b;
}
template<unsigned I> struct fill_bounds { static void go(std::vector<Bound>& v) { fill_bounds<I - 1>::go(v); v.push_back(make_bound<I - 1>()); } };
template<> struct fill_bounds<0> { static void go(std::vector<Bound>&) {} };
PROP(bounds, 1) {
	static std::vector<Bound> v; if (v.empty()) fill_bounds<160>::go(v);
	Bound const& b = v[g.draw(v.size())];
	g.note("sorted", b.a); g.note("x", b.x); g.nontrivial(b.a.size() > 1);
	auto lt = [&](int p, int q) { return b.desc ? p > q : p < q; };
	CHECK_EQ(b.lo, std::lower_bound(b.a.begin(), b.a.end(), b.x, lt) - b.a.begin());
	CHECK_EQ(b.hi, std::upper_bound(b.a.begin(), b.a.end(), b.x, lt) - b.a.begin());
	if (!b.desc) CHECK_EQ(b.ub, b.hi);
}

// ---------------------------------------------------------------- packs of conditions and values (tpp)
struct Tpp { V a; bool all, any, none, one, all2, one2; long mx, mn, mx2; };
template<bool... Bs> struct Bools {};
template<typename L> struct tpp_eval;
template<int... Is> struct tpp_eval<Ints<Is...> > {
	template<int H, int... T> static void ext(Tpp& t, Ints<H, T...>) {
		t.mx = sprout::tpp::max_element_c<int, H, T...>::value; t.mn = sprout::tpp::min_element_c<int, H, T...>::value; t.mx2 = sprout::tpp::max_element<C<H>, C<T>...>::value;
	}
	static void ext(Tpp& t, Ints<>) { t.mx = t.mn = t.mx2 = 0; }
	static Tpp go() {
		Tpp t; t.a = V{Is...};
		t.all = sprout::tpp::all_of_c<(Is < 2)...>::value; t.any = sprout::tpp::any_of_c<(Is < 2)...>::value;
		t.none = sprout::tpp::none_of_c<(Is < 2)...>::value; t.one = sprout::tpp::one_of_c<(Is < 2)...>::value;
		t.all2 = sprout::tpp::all_of<sprout::bool_constant<(Is < 2)>...>::value; t.one2 = sprout::tpp::one_of<sprout::bool_constant<(Is < 2)>...>::value;
		ext(t, Ints<Is...>());
		return t;
	}
};
template<unsigned I> struct fill_tpp { static void go(std::vector<Tpp>& v) {
	fill_tpp<I - 1>::go(v);
	v.push_back(tpp_eval<typename gen_ints<I, I % 9, (I % 3 == 0 ? 2 : I % 3 == 1 ? 5 : 14)>::type>::go());
} };
template<> struct fill_tpp<0> { static void go(std::vector<Tpp>&) {} };
PROP(packs, 1) {
	static std::vector<Tpp> v; if (v.empty()) fill_tpp<240>::go(v);
	Tpp const& t = v[g.draw(v.size())];
	g.note("values", t.a); g.nontrivial(t.a.size() > 1);
	std::size_t n = std::count_if(t.a.begin(), t.a.end(), [](int x) { return x < 2; });
	CHECK_EQ(t.all, n == t.a.size()); CHECK_EQ(t.all2, t.all);
	CHECK_EQ(t.any, n != 0); CHECK_EQ(t.none, n == 0); CHECK_EQ(t.one, n == 1); CHECK_EQ(t.one2, t.one);
	if (!t.a.empty()) {
		CHECK_EQ(t.mx, *std::max_element(t.a.begin(), t.a.end())); CHECK_EQ(t.mn, *std::min_element(t.a.begin(), t.a.end())); CHECK_EQ(t.mx2, t.mx);
	}
}

// ---------------------------------------------------------------- index sequences
typedef std::vector<long> W;
template<typename T, T... Is> static W seq_of(sprout::integer_sequence<T, Is...>) { return W{(long)Is...}; }
template<sprout::index_t... Is> static W idx_of(sprout::index_tuple<Is...>) { return W{(long)Is...}; }
template<sprout::uindex_t... Is> static W uidx_of(sprout::uindex_tuple<Is...>) { return W{(long)Is...}; }
struct Range { long f, l, s; W got, dflt, ri, n; std::string type; std::size_t size; W mk, el; };
template<typename S, std::size_t I, std::size_t N> struct seq_reader { static void go(W& w) { w.push_back((long)sprout::types::tuple_element<I, S>::type::value); seq_reader<S, I + 1, N>::go(w); } };
template<typename S, std::size_t N> struct seq_reader<S, N, N> { static void go(W&) {} };
template<typename T, long F, long L, long S> static Range range_of(char const* name) {
	typedef typename std::make_signed<T>::type ST;
	Range r; r.f = F; r.l = L; r.s = S; r.type = name;
	typedef typename sprout::integer_range<T, (T)F, (T)L, (ST)S>::type seq;
	r.got = seq_of(seq()); r.size = seq::size();
	r.dflt = seq_of(typename sprout::integer_range<T, (T)F, (T)L>::type());
	r.n = seq_of(typename sprout::integer_n<T, (T)F, (std::size_t)(S < 0 ? -S : S)>::type());
	seq_reader<seq, 0, seq::static_size>::go(r.el);
	return r;
}
template<unsigned I> struct fill_ranges { static void go(std::vector<Range>& v) {
	fill_ranges<I - 1>::go(v);
	constexpr long f = (long)(rnd(I, 1) % 20), l = (long)(rnd(I, 2) % (I % 5 == 0 ? 90 : 20)), m = 1 + (long)(rnd(I, 3) % (I % 4 == 0 ? 9 : 3)), s = f <= l ? m : -m;
	switch (I % 4) {
	case 0: v.push_back(range_of<int, f - 10, l - 10, s>("int")); break;
	case 1: v.push_back(range_of<unsigned char, f, l, s>("unsigned char")); break;
	case 2: v.push_back(range_of<long, f - 15, l - 15, s>("long")); break;
	default: v.push_back(range_of<std::size_t, f, l, s>("size_t")); break;
	}
} };
template<> struct fill_ranges<0> { static void go(std::vector<Range>&) {} };
static W ref_range(long f, long l, long s) { W w; for (long i = f; s > 0 ? i < l : i > l; i += s) w.push_back(i); return w; }
PROP(index_ranges, 2) {
	static std::vector<Range> v; if (v.empty()) fill_ranges<260>::go(v);
	Range const& r = v[g.draw(v.size())];
	g.note("type", r.type); g.note("first", r.f); g.note("last", r.l); g.note("step", r.s);
	W want = ref_range(r.f, r.l, r.s);
	g.nontrivial(want.size() > 1);
	CHECK_EQ(r.got, want); CHECK_EQ(r.el, want); CHECK_EQ(r.size, want.size());
	CHECK_EQ(r.dflt, ref_range(r.f, r.l, r.f <= r.l ? 1 : -1));
	CHECK_EQ(r.n, W((std::size_t)(r.s < 0 ? -r.s : r.s), r.f));
}
struct Made { std::size_t n; W a, b, c, d, e, f, g; };
template<std::size_t N, typename... Ts> struct made { static Made go() { return made<N - 1, Ts..., char>::go(); } };
template<typename... Ts> struct made<0, Ts...> { static Made go() {
	enum { N = sizeof...(Ts) };
	Made m; m.n = N;
	m.a = idx_of(sprout::make_index_tuple<N>::make()); m.b = uidx_of(sprout::make_uindex_tuple<N>::make());
	m.c = seq_of(sprout::make_integer_sequence<short, N>::make()); m.d = idx_of(sprout::index_pack<Ts...>::make());
	m.e = seq_of(sprout::make_index_sequence<N>::make()); m.f = seq_of(sprout::index_sequence_for<Ts...>::make());
	m.g = idx_of(typename sprout::index_range<0, N>::type());
	return m;
} };
template<unsigned I> struct fill_made { static void go(std::vector<Made>& v) { fill_made<I - 1>::go(v); v.push_back(made<I - 1>::go()); } };
template<> struct fill_made<0> { static void go(std::vector<Made>&) {} };
PROP(index_counts, 1) {
	static std::vector<Made> v; if (v.empty()) fill_made<70>::go(v);
	Made const& m = v[g.draw(v.size())];
	g.note("n", m.n); g.nontrivial(m.n > 1);
	W want = ref_range(0, (long)m.n, 1);
	CHECK_EQ(m.a, want); CHECK_EQ(m.b, want); CHECK_EQ(m.c, want); CHECK_EQ(m.d, want); CHECK_EQ(m.e, want); CHECK_EQ(m.f, want); CHECK_EQ(m.g, want);
}

// ---------------------------------------------------------------- arithmetic on constants, sequences and iterators
struct Fn { int a, b; std::map<std::string, long> got; };
template<int A, int B> static Fn fn_of() {
	typedef sprout::integral_constant<int, A> X; typedef sprout::integral_constant<int, B> Y;
	Fn f; f.a = A; f.b = B;
	f.got["+"] = ty::plus<X, Y>::value; f.got["-"] = ty::minus<X, Y>::value; f.got["*"] = ty::multiplies<X, Y>::value;
	f.got["/"] = ty::divides<X, sprout::integral_constant<int, B ? B : 1> >::value; f.got["%"] = ty::modulus<X, sprout::integral_constant<int, B ? B : 1> >::value;
	f.got["neg"] = ty::negate<X>::value; f.got["pos"] = ty::posite<X>::value;
	f.got["=="] = ty::equal_to<X, Y>::value; f.got["!="] = ty::not_equal_to<X, Y>::value; f.got["<"] = ty::less<X, Y>::value; f.got[">"] = ty::greater<X, Y>::value;
	f.got["<="] = ty::less_equal<X, Y>::value; f.got[">="] = ty::greater_equal<X, Y>::value;
	f.got["apply -"] = ty::apply<ty::minus_, X, Y>::type::value; f.got["apply <"] = ty::apply<ty::less_, X, Y>::type::value; f.got["apply >="] = ty::apply<ty::greater_equal_, X, Y>::type::value;
	f.got["apply <="] = ty::apply<ty::less_equal_, X, Y>::type::value; f.got["apply >"] = ty::apply<ty::greater_, X, Y>::type::value; f.got["apply neg"] = ty::apply<ty::negate_, X>::type::value;
	return f;
}
template<unsigned I> struct fill_fn { static void go(std::vector<Fn>& v) { fill_fn<I - 1>::go(v); v.push_back(fn_of<(int)(I % 7) - 3, (int)(I / 7) - 4>()); } };
template<> struct fill_fn<0> { static void go(std::vector<Fn>&) {} };
PROP(functions, 1) {
	static std::vector<Fn> v; if (v.empty()) fill_fn<62>::go(v);
	Fn const& f = v[g.draw(v.size())];
	int a = f.a, b = f.b, d = b ? b : 1;
	g.note("a", a); g.note("b", b); g.nontrivial(a != b && a && b);
	std::map<std::string, long> w = {{"+", a + b}, {"-", a - b}, {"*", a * b}, {"/", a / d}, {"%", a % d}, {"neg", -a}, {"pos", a}, {"==", a == b}, {"!=", a != b}, {"<", a < b}, {">", a > b}, {"<=", a <= b}, {">=", a >= b},
		{"apply -", a - b}, {"apply <", a < b}, {"apply >=", a >= b}, {"apply <=", a <= b}, {"apply >", a > b}, {"apply neg", -a}};
	for (auto const& p : w) CHECK_MSG(f.got.at(p.first) == p.second, p.first + " of two constants");
}
struct Seq { V a; long find, findif, dist, adv, adv2; };
template<typename It, typename End, long N> struct pos_of { enum { value = It::value }; };
template<typename End, long N> struct pos_of<End, End, N> { enum { value = N }; };   // the end iterator has no element and is never completed
template<typename A, bool First> struct there_and_back { enum { value = ty::deref<A>::type::value }; };
template<typename A> struct there_and_back<A, false> { enum { value = ty::deref<typename ty::next<typename ty::prev<A>::type>::type>::type::value }; };
template<unsigned I> static Seq seq_case() {
	typedef typename gen_ints<I, 1 + rnd(I, 55) % 8, 5>::type LI;
	typedef typename as_list<0, LI>::type L;
	Seq s; s.a = values(LI());
	typedef typename ty::begin<L>::type B; typedef typename ty::end<L>::type E;
	s.find = pos_of<typename ty::seq::find<L, C<2> >::type, E, ty::tuple_size<L>::value>::value; s.findif = pos_of<typename ty::seq::find_if<L, odd>::type, E, ty::tuple_size<L>::value>::value;
	s.dist = ty::distance<B, E>::value;
	typedef typename ty::advance<B, rnd(I, 56) % ty::tuple_size<L>::value>::type A;
	s.adv = ty::deref<A>::type::value; s.adv2 = there_and_back<A, rnd(I, 56) % ty::tuple_size<L>::value == 0>::value;
	return s;
}
template<unsigned I> struct fill_seq { static void go(std::vector<Seq>& v) { fill_seq<I - 1>::go(v); v.push_back(seq_case<I>()); } };
template<> struct fill_seq<0> { static void go(std::vector<Seq>&) {} };
PROP(sequences, 1) {
	static std::vector<Seq> v; if (v.empty()) fill_seq<80>::go(v);
	std::size_t k = g.draw(v.size());
	Seq const& s = v[k];
	g.note("list", s.a); g.nontrivial(s.a.size() > 1);
	CHECK_EQ(s.find, std::find(s.a.begin(), s.a.end(), 2) - s.a.begin());
	CHECK_EQ(s.findif, std::find_if(s.a.begin(), s.a.end(), [](int v) { return v % 2 != 0; }) - s.a.begin());
	CHECK_EQ(s.dist, (long)s.a.size());
	CHECK_EQ(s.adv, s.a[rnd((unsigned)k + 1, 56) % s.a.size()]); CHECK_EQ(s.adv2, s.adv);
}
