// G01: a range adaptor, alone or in a pipeline, shows the sequence it denotes
#include "pbt.hpp"
#include "laws.hpp"
#include <algorithm>
#include <numeric>
#include <list>
#include <sprout/array.hpp>
#include <sprout/range/adaptor.hpp>
#include <sprout/range/adaptor/sized.hpp>
#include <sprout/range/algorithm.hpp>
#include <sprout/container.hpp>
#include <sprout/functional.hpp>
using namespace pbt;
namespace ad = sprout::adaptors;
typedef std::vector<int> V;
typedef sprout::array<int, 6> A6;

struct Mod { int m, r; bool operator()(int k) const { return ((k % m) + m) % m == r; } };
struct Twice { int operator()(int x) const { return 2 * x + 1; } };
struct Mix { int operator()(int x, int y) const { return 10 * x + y; } };
struct Near { int d; bool operator()(int a, int b) const { return std::abs(a - b) <= d; } };

// base ranges
struct BVec { typedef std::vector<int> C; static C make(V const& v) { return v; } static size_t size(G& g) { return g.size(9); } };
struct BCVec { typedef std::vector<int> const C; static C make(V const& v) { return v; } static size_t size(G& g) { return g.size(9); } };
struct BList { typedef std::list<int> C; static C make(V const& v) { return C(v.begin(), v.end()); } static size_t size(G& g) { return g.size(9); } };
struct BArr { typedef A6 C; static C make(V const& v) { C a; std::copy(v.begin(), v.end(), a.begin()); return a; } static size_t size(G&) { return 6; } };
struct BCArr { typedef A6 const C; static C make(V const& v) { A6 a; std::copy(v.begin(), v.end(), a.begin()); return a; } static size_t size(G&) { return 6; } };
template<class B> static V data(G& g) { size_t n = B::size(g); V v; int span = g.flag() ? 3 : 9; for (size_t i = 0; i < n; ++i) v.push_back(g.irange(-1, span)); if (n > 1) g.nontrivial(); return v; }
template<class B> static V sdata(G& g) { V v = data<B>(g); std::sort(v.begin(), v.end()); return v; }

template<class R, class T> static void chk(R const& r, std::vector<T> const& e) {
	laws(sprout::begin(r), sprout::end(r), e);
	CHECK_EQ(size_t(sprout::size(r)), e.size()); CHECK_EQ(sprout::empty(r), e.empty());
	if (!e.empty()) { CHECK_EQ(T(sprout::front(r)), e.front()); }
	std::vector<T> f; for (auto&& x : r) f.push_back(T(x)); CHECK_EQ(f, e);
}
template<class R, class T> static void chk_ra(R const& r, std::vector<T> const& e) {
	chk(r, e); if (!e.empty()) CHECK_EQ(T(sprout::back(r)), e.back());
	for (size_t i = 0; i < e.size(); ++i) { CHECK_EQ(T(*sprout::nth(r, i)), e[i]); }
}

// every adaptor: builds the expected sequence from d and checks (r | adaptor); F is called with the resulting range and the expected sequence
static V slice(V const& d, long a, long b) { long n = long(d.size()); a = std::max(0L, std::min(a, n)); b = std::max(a, std::min(b, n)); return V(d.begin() + a, d.begin() + b); }

#define OP(name) struct name { template<class R, class F> static void go(G& g, R& r, V const& d, F f)
OP(taken) { long n = g.draw(9); f(r | ad::taken(n), slice(d, 0, n)); } };
OP(dropped) { long n = g.draw(9); f(r | ad::dropped(n), slice(d, n, long(d.size()))); } };
OP(taken_end) { long n = g.draw(9), s = long(d.size()); f(r | ad::taken_end(-n), slice(d, std::max(0L, s - n), s)); } };
OP(dropped_end) { long n = g.draw(9), s = long(d.size()); f(r | ad::dropped_end(-n), slice(d, 0, std::max(0L, s - n))); } };
OP(window2) { long a = g.draw(9), b = a + g.draw(6); f(r | ad::window(a, b), slice(d, a, b)); } };
OP(window1) { long a = g.draw(9); f(r | ad::window(a), slice(d, a, long(d.size()))); } };
OP(offset2) { long s = long(d.size()), a = g.draw(9), b = g.draw(9); f(r | ad::offset(a, -b), slice(d, a, s - b)); } };
OP(offset1) { long a = g.draw(9); f(r | ad::offset(a), slice(d, a, long(d.size()))); } };
OP(reversed) { V e = d; std::reverse(e.begin(), e.end()); f(r | ad::reversed, e); } };
OP(transformed1) { V e; for (int x : d) e.push_back(2 * x + 1); f(r | ad::transformed(Twice()), e); } };
OP(filtered) { Mod p{g.irange(1, 3), 0}; p.r = g.irange(0, p.m); V e; std::copy_if(d.begin(), d.end(), std::back_inserter(e), p); f(r | ad::filtered(p), e); } };
OP(removed) { int x = g.irange(-1, 9); V e = d; e.erase(std::remove(e.begin(), e.end(), x), e.end()); f(r | ad::removed(x), e); } };
OP(removed_if) { Mod p{g.irange(1, 3), 0}; p.r = g.irange(0, p.m); V e = d; e.erase(std::remove_if(e.begin(), e.end(), p), e.end()); f(r | ad::removed_if(p), e); } };
OP(replaced) { int x = g.irange(-1, 9), y = g.irange(-9, 9); V e = d; std::replace(e.begin(), e.end(), x, y); f(r | ad::replaced(x, y), e); } };
OP(replaced_if) { Mod p{g.irange(1, 3), 0}; p.r = g.irange(0, p.m); int y = g.irange(-9, 9); V e = d; std::replace_if(e.begin(), e.end(), p, y); f(r | ad::replaced_if(p, y), e); } };
OP(uniqued) { V e = d; e.erase(std::unique(e.begin(), e.end()), e.end()); f(r | ad::uniqued, e); } };
OP(clamped) { int lo = g.irange(-2, 5), hi = g.irange(lo, 9); V e; for (int x : d) e.push_back(x < lo ? lo : hi < x ? hi : x); f(r | ad::clamped(lo, hi), e); } };
OP(clamped_cmp) { int lo = g.irange(-2, 5), hi = g.irange(lo, 9); V e; for (int x : d) e.push_back(x > hi ? hi : lo > x ? lo : x); f(r | ad::clamped(hi, lo, std::greater<int>()), e); } };
OP(filled) { int x = g.irange(-9, 9); f(r | ad::filled(x), V(d.size(), x)); } };
OP(moved) { f(r | ad::moved, d); } };
OP(counting1) { int a = g.irange(-9, 9); V e(d.size()); std::iota(e.begin(), e.end(), a); f(r | ad::counting(a, a + 100), e); } };
OP(counting2) { int a = g.irange(-9, 9), n = g.irange(0, 9); V e(std::min(d.size(), size_t(n))); std::iota(e.begin(), e.end(), a); f(r | ad::counting(a, a + n), e); } };
OP(blanked) { long n = g.draw(9); int x = g.irange(-9, 9); f(r | ad::blanked(n, x), V(std::min(size_t(n), d.size()), x)); } };
OP(sized3) { f(r | ad::sized<3>(), slice(d, 0, 3)); } };
OP(steps1) { long w = g.irange(1, 4); V e; for (size_t i = 0; i < d.size(); i += size_t(w)) e.push_back(d[i]); f(r | ad::steps(w), e); } };
OP(steps2) { long w = g.irange(1, 4), k = g.draw(9); V e; for (size_t i = size_t(k); i < d.size(); i += size_t(w)) e.push_back(d[i]); f(r | ad::steps(w, k), e); } };
OP(piped2) { long n = g.draw(9); V e = slice(d, n, long(d.size())); std::reverse(e.begin(), e.end()); f(r | ad::piped(ad::dropped(n), ad::reversed), e); } };

OP(adjacent_filtered) { Near p{g.irange(0, 3)}; V e; for (size_t i = 0; i < d.size(); ++i) if (!i || p(d[i - 1], d[i])) e.push_back(d[i]); f(r | ad::adjacent_filtered(p), e); } };
// the part outside stays, the part inside goes through the adaptor
static V join(V a, V const& b, V const& c = V()) { a.insert(a.end(), b.begin(), b.end()); a.insert(a.end(), c.begin(), c.end()); return a; }
static V twice(V v) { for (int& x : v) x = 2 * x + 1; return v; }
OP(atk) { long n = g.draw(9), s = long(d.size()); f(r | ad::adapted_taken(ad::transformed(Twice()), n), join(twice(slice(d, 0, n)), slice(d, n, s))); } };
OP(adr) { long n = g.draw(9), s = long(d.size()); f(r | ad::adapted_dropped(ad::transformed(Twice()), n), join(slice(d, 0, n), twice(slice(d, n, s)))); } };
OP(ate) { long n = g.draw(9), s = long(d.size()); f(r | ad::adapted_taken_end(ad::transformed(Twice()), -n), join(slice(d, 0, s - n), twice(slice(d, std::max(0L, s - n), s)))); } };
OP(ade) { long n = g.draw(9), s = long(d.size()); f(r | ad::adapted_dropped_end(ad::transformed(Twice()), -n), join(twice(slice(d, 0, s - n)), slice(d, std::max(0L, s - n), s))); } };
OP(awi) { long s = long(d.size()), a = g.draw(7), b = a + g.draw(5); f(r | ad::adapted_window(ad::transformed(Twice()), a, b), join(slice(d, 0, a), twice(slice(d, a, b)), slice(d, b, s))); } };
OP(awi1) { long s = long(d.size()), a = g.draw(9); f(r | ad::adapted_window(ad::transformed(Twice()), a), join(slice(d, 0, a), twice(slice(d, a, s)))); } };
OP(aof) { long s = long(d.size()), a = g.draw(size_t(s) + 1), b = g.draw(size_t(s - a) + 1); f(r | ad::adapted_offset(ad::transformed(Twice()), a, -b), join(slice(d, 0, a), twice(slice(d, a, s - b)), slice(d, s - b, s))); } };
OP(aof1) { long s = long(d.size()), a = g.draw(9); f(r | ad::adapted_offset(ad::transformed(Twice()), a), join(slice(d, 0, a), twice(slice(d, a, s)))); } };
// two ranges
#define OP2(name) struct name { struct M { template<class R, class S, class F> static void run(R& r, V const& d, S& t, V const& s, F f)
#define END2(cat) }; template<class R, class F> static void go(G& g, R& r, V const& d, F f) { V s; size_t n = g.size(6); for (size_t i = 0; i < n; ++i) s.push_back(g.irange(-1, 9)); g.note("other", s); M::run(r, d, s, V(s), f); } };
OP2(jointed) { f(r | ad::jointed(t), join(d, s)); } END2()
OP2(jointed_self) { (void)s; (void)t; f(r | ad::jointed(r), join(d, d)); } END2()
OP2(transformed2) { V e; t.resize(d.size()); for (size_t i = 0; i < d.size(); ++i) e.push_back(10 * d[i] + t[i]); f(r | ad::transformed(t, Mix()), e); } END2()
OP2(alternated) { V e; for (size_t i = 0; i < std::min(d.size(), t.size()); ++i) { e.push_back(d[i]); e.push_back(t[i]); } f(r | ad::alternated(t), e); } END2()
#define SETOP(name, stdname) struct name { template<class R, class F> static void go(G& g, R&, V const& d0, F f) { V d = d0, s, e; size_t n = g.size(6); for (size_t i = 0; i < n; ++i) s.push_back(g.irange(-1, 9)); \
	std::sort(d.begin(), d.end()); std::sort(s.begin(), s.end()); g.note("other", s); typename Same<R>::C r = Same<R>::make(d); \
	std::stdname(d.begin(), d.end(), s.begin(), s.end(), std::back_inserter(e)); f(r | ad::name(s), e); \
	std::reverse(d.begin(), d.end()); std::reverse(s.begin(), s.end()); typename Same<R>::C q = Same<R>::make(d); e.clear(); \
	std::stdname(d.begin(), d.end(), s.begin(), s.end(), std::back_inserter(e), std::greater<int>()); f(q | ad::name(s, std::greater<int>()), e); } };
template<class R> struct Same; template<> struct Same<std::vector<int>> : BVec {}; template<> struct Same<std::vector<int> const> : BCVec {}; template<> struct Same<std::list<int>> : BList {}; template<> struct Same<A6> : BArr {}; template<> struct Same<A6 const> : BCArr {};
SETOP(merged, merge) SETOP(set_union, set_union) SETOP(set_intersection, set_intersection) SETOP(set_difference, set_difference) SETOP(set_symmetric_difference, set_symmetric_difference)

// one base, one operation
struct Chk { template<class R> void operator()(R const& r, V const& e) const { chk(r, e); } };
struct ChkRa { template<class R> void operator()(R const& r, V const& e) const { chk_ra(r, e); } };
template<class O, class B, class F = Chk> static void one(G& g) { V d = data<B>(g); g.note("data", d); typename B::C c = B::make(d); O::go(g, c, d, F()); }
#ifndef PART
#define PART 0
#endif
#define ONE(O, w) PROP_INST(O##_vec, w, one<O, BVec>) PROP_INST(O##_list, w, one<O, BList>) PROP_INST(O##_carr, w, one<O, BCArr>)
#define ONE_RA(O, w) PROP_INST(O##_vec, w, one<O, BVec>) PROP_INST(O##_carr, w, one<O, BCArr>)
#if PART == 0 || PART == 1
ONE(taken, 0.3) ONE(dropped, 0.3) ONE(taken_end, 0.3) ONE(dropped_end, 0.3) ONE(window2, 0.3) ONE(window1, 0.3) ONE(offset2, 0.3) ONE(offset1, 0.3) ONE(reversed, 0.2) ONE(transformed1, 0.2) ONE(filtered, 0.3) ONE(removed, 0.3) ONE(removed_if, 0.3) ONE(replaced, 0.3) ONE(replaced_if, 0.3) ONE(uniqued, 0.3) ONE(clamped, 0.3) ONE(clamped_cmp, 0.3) ONE(filled, 0.2) ONE(counting1, 0.2) ONE(counting2, 0.2) ONE(blanked, 0.2) ONE(sized3, 0.2) ONE_RA(steps1, 0.3) ONE_RA(steps2, 0.3) ONE(piped2, 0.3)
PROP_INST(moved_vec, 0.2, one<moved, BVec>) PROP_INST(moved_list, 0.2, one<moved, BList>) PROP_INST(moved_arr, 0.2, one<moved, BArr>) ONE(adjacent_filtered, 0.3) ONE(atk, 0.3) ONE(adr, 0.3) ONE(ate, 0.3) ONE(ade, 0.3) ONE(awi, 0.3) ONE(awi1, 0.3) ONE(aof, 0.3) ONE(aof1, 0.3)
#endif
#if PART == 0 || PART == 2
ONE(jointed, 0.3) ONE(jointed_self, 0.2) ONE(transformed2, 0.3) ONE(alternated, 0.3) ONE(merged, 0.3) ONE(set_union, 0.3) ONE(set_intersection, 0.3) ONE(set_difference, 0.3) ONE(set_symmetric_difference, 0.3)

// conversions to containers: element by element, truncated or overlaid on the base
static V overlay(V base, V const& e) { for (size_t i = 0; i < std::min(base.size(), e.size()); ++i) base[i] = e[i]; return base; }
template<class O> struct ToArr { V const& base; template<class R> void operator()(R const& r, V const& e) const {
	A6 a = r | ad::copied; CHECK_EQ(V(a.begin(), a.end()), overlay(V(6, 0), e));
	A6 b; std::copy(base.begin(), base.end(), b.begin()); auto c = r | ad::copied(b); static_assert(std::is_same<decltype(c), A6>::value, ""); CHECK_EQ(V(c.begin(), c.end()), overlay(base, e)); CHECK_EQ(V(b.begin(), b.end()), base);
	sprout::array<int, 3> s = r | ad::copied; CHECK_EQ(V(s.begin(), s.end()), overlay(V(3, 0), e)); } };
template<class O, class B> static void toarr(G& g) { V d = data<B>(g); V base; for (int i = 0; i < 6; ++i) base.push_back(g.irange(10, 19)); g.note("data", d); g.note("base", base); typename B::C c = B::make(d); O::go(g, c, d, ToArr<O>{base}); }
PROP_INST(copied_taken, 0.3, toarr<taken, BVec>) PROP_INST(copied_filtered, 0.3, toarr<filtered, BCArr>) PROP_INST(copied_jointed, 0.3, toarr<jointed, BArr>) PROP_INST(copied_reversed, 0.3, toarr<reversed, BVec>) PROP_INST(copied_list, 0.3, toarr<transformed1, BList>)
struct ToDeep { template<class R> void operator()(R const& r, V const& e) const { auto c = r | ad::deep_copied; static_assert(std::is_same<decltype(c), A6>::value, ""); CHECK_EQ(V(c.begin(), c.end()), overlay(V(6, 0), e)); } };
template<class O> static void deep(G& g) { V d = data<BArr>(g); g.note("data", d); A6 c = BArr::make(d); O::go(g, c, d, ToDeep()); }
PROP_INST(deep_reversed, 0.3, deep<reversed>) PROP_INST(deep_taken, 0.3, deep<taken>) PROP_INST(deep_filtered, 0.3, deep<filtered>) PROP_INST(deep_transformed, 0.3, deep<transformed1>)
// the positions themselves, indexes, case, lengths
template<class B> static void outdirected(G& g) { V d = data<B>(g); g.note("data", d); typename B::C c = B::make(d); auto r = c | ad::outdirected; size_t k = 0; auto x = sprout::begin(c);
	for (auto i = sprout::begin(r); i != sprout::end(r); ++i, ++x, ++k) { CHECK(k < d.size()); CHECK(*i == x); CHECK_EQ(int(**i), d[k]); } CHECK_EQ(k, d.size()); }
PROP_INST(outdirected_vec, 0.3, outdirected<BVec>) PROP_INST(outdirected_arr, 0.3, outdirected<BCArr>) PROP_INST(outdirected_list, 0.3, outdirected<BList>)
template<class B> static void indexed(G& g) { V d = data<B>(g); long n0 = g.irange(-3, 9); g.note("data", d); typename B::C c = B::make(d);
	{ auto r = c | ad::indexed; long k = 0; for (auto i = sprout::begin(r); i != sprout::end(r); ++i, ++k) { CHECK(k < long(d.size())); CHECK_EQ(long(i.index()), k); CHECK_EQ(int(*i), d[size_t(k)]); } CHECK_EQ(k, long(d.size())); }
	{ auto r = c | ad::indexed(n0); long k = 0; for (auto i = sprout::begin(r); i != sprout::end(r); ++i, ++k) { CHECK(k < long(d.size())); CHECK_EQ(long(i.index()), n0 + k); CHECK_EQ(int(*i), d[size_t(k)]); } CHECK_EQ(k, long(d.size())); } }
PROP_INST(indexed_vec, 0.3, indexed<BVec>) PROP_INST(indexed_arr, 0.3, indexed<BArr>) PROP_INST(indexed_list, 0.3, indexed<BList>)
PROP(letter_case, 0.5) { std::string s = g.str(9, std::string("aAzZ09_[`{@ \xe9")); std::vector<char> lo, up; for (char c : s) { lo.push_back(c >= 'A' && c <= 'Z' ? char(c + 32) : c); up.push_back(c >= 'a' && c <= 'z' ? char(c - 32) : c); } if (s.size() > 1) g.nontrivial();
	chk(s | ad::to_lower, lo); chk(s | ad::to_upper, up); std::vector<char> rl(lo.rbegin(), lo.rend()); chk(s | ad::reversed | ad::to_lower, rl); }
PROP(size_enumed, 0.5) { size_t n = g.size(6); std::vector<std::string> w; for (size_t i = 0; i < n; ++i) w.push_back(std::string(g.draw(4), 'x')); if (n > 1) g.nontrivial(); g.note("words", w);
	std::vector<std::ptrdiff_t> e; for (auto& x : w) e.push_back(std::ptrdiff_t(x.size()));
	auto r = w | ad::size_enumed; std::vector<std::ptrdiff_t> got; for (auto i = sprout::begin(r); i != sprout::end(r); ++i) got.push_back(std::ptrdiff_t(*i)); CHECK_EQ(got, e);
	long sep = g.draw(3); std::vector<std::ptrdiff_t> f, h; for (size_t i = 0; i < n; ++i) { f.push_back(e[i]); h.push_back(e[i]); f.push_back(sep); if (i + 1 < n) h.push_back(sep); }
	{ auto q = w | ad::size_enumed(sep); got.clear(); for (auto i = sprout::begin(q); i != sprout::end(q) && got.size() < 20; ++i) got.push_back(std::ptrdiff_t(*i)); CHECK_EQ(got, f); }
	{ auto q = w | ad::size_enumed(sep, true); got.clear(); for (auto i = sprout::begin(q); i != sprout::end(q) && got.size() < 20; ++i) got.push_back(std::ptrdiff_t(*i)); CHECK_EQ(got, h); } }
// writing through a view
template<class B> static void through(G& g) { V d = data<B>(g); if (d.empty()) return; g.note("data", d); int x = g.irange(50, 60); long k = long(g.draw(d.size())); 
	{ typename B::C c = B::make(d); auto r = c | ad::reversed; *sprout::next(sprout::begin(r), k) = x; V e = d; e[d.size() - 1 - size_t(k)] = x; CHECK_EQ(V(sprout::begin(c), sprout::end(c)), e); }
	{ typename B::C c = B::make(d); auto r = c | ad::dropped(k); *sprout::begin(r) = x; V e = d; e[size_t(k)] = x; CHECK_EQ(V(sprout::begin(c), sprout::end(c)), e); }
	{ typename B::C c = B::make(d); Mod p{2, g.irange(0, 1)}; auto r = c | ad::filtered(p); long n = 0; V e = d; for (int& y : e) if (p(y)) y = x; for (auto i = sprout::begin(r); i != sprout::end(r) && n < 20; ++n) { auto j = i; ++i; *j = x; } CHECK_EQ(V(sprout::begin(c), sprout::end(c)), e); } }
PROP_INST(through_vec, 0.3, through<BVec>) PROP_INST(through_list, 0.3, through<BList>) PROP_INST(through_arr, 0.3, through<BArr>)
#endif
#if PART == 0 || PART == 3
// a range produced by one adaptor goes into another
template<class O2, class F> struct Then { G& g; F f; template<class R> void operator()(R const& r, V const& e) const { g.note("stage", e); R& m = const_cast<R&>(r); O2::go(g, m, e, f); } };
template<class O1, class O2, class B> static void pipe2(G& g) { V d = data<B>(g); g.note("data", d); typename B::C c = B::make(d); O1::go(g, c, d, Then<O2, Chk>{g, Chk()}); }
template<class O1, class O2, class O3, class B> static void pipe3(G& g) { V d = data<B>(g); g.note("data", d); typename B::C c = B::make(d); O1::go(g, c, d, Then<O2, Then<O3, Chk>>{g, {g, Chk()}}); }
#define P2(A, B) PROP_INST(p_##A##_##B##_vec, 0.3, pipe2<A, B, BVec>) PROP_INST(p_##A##_##B##_arr, 0.3, pipe2<A, B, BCArr>)
#define P3(A, B, C) PROP_INST(p_##A##_##B##_##C##_vec, 0.3, pipe3<A, B, C, BCVec>) PROP_INST(p_##A##_##B##_##C##_arr, 0.3, pipe3<A, B, C, BArr>)
P2(filtered, reversed) P2(filtered, taken) P2(filtered, dropped_end) P2(transformed1, filtered) P2(reversed, taken) P2(reversed, reversed) P2(taken, reversed) P2(dropped, taken) P2(window2, offset2)
P2(jointed, reversed) P2(jointed, filtered) P2(jointed, window2) P2(filtered, jointed) P2(uniqued, transformed1) P2(removed, uniqued) P2(replaced, uniqued) P2(clamped, steps1) P2(steps1, transformed1) P2(counting1, filtered) P2(filled, taken) P2(alternated, reversed)
P2(transformed2, taken) P2(atk, reversed) P2(aof, taken_end) P2(sized3, reversed) P2(reversed, atk) 
PROP_INST(p_moved_taken, 0.3, pipe2<moved, taken, BVec>)
P3(filtered, transformed1, reversed) P3(reversed, taken, filtered) P3(jointed, transformed1, window2) P3(dropped, transformed1, alternated) P3(transformed1, replaced, uniqued) P3(taken_end, reversed, jointed) P3(removed_if, dropped, taken)
#endif
