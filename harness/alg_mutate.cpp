// In-place and copying (output iterator) sequence algorithms against the C++ standard library.
#include "iters.hpp"
#include <sprout/algorithm/modifying.hpp>
#include <sprout/algorithm/cxx14.hpp>
#include <sprout/algorithm/string.hpp>
#include <algorithm>
#include <random>
using namespace ck;
using pbt::G;

namespace {
	enum { N = 60 };
	template<class K> struct M {	// a mutable range
		std::vector<E> v; typename K::template R<E> r;
		explicit M(std::vector<E> const& x) : v(x), r(v) {}
		typename K::template R<E>::miter b() { return r.mbegin(); }
		typename K::template R<E>::miter e() { return r.mend(); }
		typename K::template R<E>::miter nth(long n) { auto i = r.mbegin(); std::advance(i, n); return i; }
		template<class I> long at(I const& i) const { return r.index(i); }
		std::vector<E> get() const { return r.get(); }
	};
	std::vector<E> input(G& g, size_t n = N, int base = 0) { std::vector<E> v = elems(g.vec(n), base); g.note("a", v); g.nontrivial(v.size() > 1); return v; }
	std::vector<E> blanks(size_t n) { return std::vector<E>(n, E(-777, -777)); }
#define SAME(got, want) do { std::vector<E> g_ = (got), w_ = (want); CHECK_MSG(same(g_, w_), "got " << pbt::show(g_) << " expected " << pbt::show(w_)); } while (0)

	// destination: exactly `n` elements, two guard elements on each side are part of the buffer but not of the range
	template<class K> struct Dst : M<K> { explicit Dst(size_t n) : M<K>(blanks(n)) {} };

	template<class K> void copies(G& g) {
		std::vector<E> v = input(g); M<K> a(v); size_t n = v.size();
		ModIs p = {g.irange(1, 5), g.irange(0, 2)}; g.note("m", p.m); g.note("r", p.r);
		{ Dst<K> d(n); auto r = sprout::copy(a.b(), a.e(), d.b()); CHECK_EQ(d.at(r), long(n)); SAME(d.get(), v); }
		{ Dst<K> d(n); auto r = sprout::move(a.b(), a.e(), d.b()); CHECK_EQ(d.at(r), long(n)); SAME(d.get(), v); }
		{ size_t k = g.draw(n + 1); g.note("n", k); Dst<K> d(k); auto r = sprout::copy_n(a.b(), int(k), d.b()); CHECK_EQ(d.at(r), long(k)); SAME(d.get(), std::vector<E>(v.begin(), v.begin() + k)); }
		{ std::vector<E> w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), p); Dst<K> d(w.size()); auto r = sprout::copy_if(a.b(), a.e(), d.b(), p); CHECK_EQ(d.at(r), long(w.size())); SAME(d.get(), w); }
		{ std::vector<E> w; std::remove_copy_if(v.begin(), v.end(), std::back_inserter(w), p); Dst<K> d(w.size()); auto r = sprout::remove_copy_if(a.b(), a.e(), d.b(), p); CHECK_EQ(d.at(r), long(w.size())); SAME(d.get(), w); }
		{ E x(g.irange(-2, 3)); std::vector<E> w; std::remove_copy(v.begin(), v.end(), std::back_inserter(w), x); Dst<K> d(w.size()); auto r = sprout::remove_copy(a.b(), a.e(), d.b(), x); CHECK_EQ(d.at(r), long(w.size())); SAME(d.get(), w); }
		{ auto s = std::find_if(v.begin(), v.end(), p); std::vector<E> w(v.begin(), s); Dst<K> d(w.size()); auto r = sprout::copy_until(a.b(), a.e(), d.b(), p); CHECK_EQ(a.at(r.first), long(s - v.begin())); CHECK_EQ(d.at(r.second), long(w.size())); SAME(d.get(), w); }
		{ auto s = std::find_if_not(v.begin(), v.end(), p); std::vector<E> w(v.begin(), s); Dst<K> d(w.size()); auto r = sprout::copy_while(a.b(), a.e(), d.b(), p); CHECK_EQ(a.at(r.first), long(s - v.begin())); CHECK_EQ(d.at(r.second), long(w.size())); SAME(d.get(), w); }
		{ E x(g.irange(-2, 3)), y(99, 99); std::vector<E> w(v); std::replace(w.begin(), w.end(), x, y); Dst<K> d(n); auto r = sprout::replace_copy(a.b(), a.e(), d.b(), x, y); CHECK_EQ(d.at(r), long(n)); SAME(d.get(), w);
			sprout::replace(a.b(), a.e(), x, y); SAME(a.get(), w); }
		{ M<K> c(v); E y(99, 99); std::vector<E> w(v); std::replace_if(w.begin(), w.end(), p, y); Dst<K> d(n); auto r = sprout::replace_copy_if(c.b(), c.e(), d.b(), p, y); CHECK_EQ(d.at(r), long(n)); SAME(d.get(), w);
			sprout::replace_if(c.b(), c.e(), p, y); SAME(c.get(), w); }
	}
	PROP_KINDS5(copies, 3)

	template<class K> void copies_overlap(G& g) {
		std::vector<E> v = input(g); size_t n = v.size();
		size_t i = g.draw(n + 1), j = i + g.draw(n - i + 1); g.note("i", i); g.note("j", j);
		{ M<K> a(v); std::vector<E> w(v); std::copy(w.begin() + i, w.begin() + j, w.begin()); auto r = sprout::copy(a.nth(i), a.nth(j), a.b()); CHECK_EQ(a.at(r), long(j - i)); SAME(a.get(), w); }
		{ M<K> a(v); std::vector<E> w(v); std::copy(w.begin() + i, w.begin() + j, w.begin()); auto r = sprout::move(a.nth(i), a.nth(j), a.b()); CHECK_EQ(a.at(r), long(j - i)); SAME(a.get(), w); }
	}
	PROP_KINDS5(copies_overlap, 1)
	template<class K> void copies_backward(G& g) {
		std::vector<E> v = input(g); size_t n = v.size();
		size_t i = g.draw(n + 1), j = i + g.draw(n - i + 1); g.note("i", i); g.note("j", j);
		{ M<K> a(v); std::vector<E> w(v); std::copy_backward(w.begin() + i, w.begin() + j, w.end()); auto r = sprout::copy_backward(a.nth(i), a.nth(j), a.e()); CHECK_EQ(a.at(r), long(n - (j - i))); SAME(a.get(), w); }
		{ M<K> a(v); std::vector<E> w(v); std::copy_backward(w.begin() + i, w.begin() + j, w.end()); auto r = sprout::move_backward(a.nth(i), a.nth(j), a.e()); CHECK_EQ(a.at(r), long(n - (j - i))); SAME(a.get(), w); }
		{ M<K> a(v); std::vector<E> w(v); std::reverse(w.begin() + i, w.begin() + j); sprout::reverse(a.nth(i), a.nth(j)); SAME(a.get(), w); }
		{ M<K> a(v); std::vector<E> w(v); std::reverse(w.begin(), w.end()); Dst<K> d(n); auto r = sprout::reverse_copy(a.b(), a.e(), d.b()); CHECK_EQ(d.at(r), long(n)); SAME(d.get(), w); }
	}
	PROP_KINDS_BI(copies_backward, 2)

	struct Gen { int n; E operator()() { ++n; return E(n * 7 % 5, n); } };
	struct Neg { E operator()(E const& e) const { return E(-e.key * 3, e.id); } };
	struct Sub { E operator()(E const& a, E const& b) const { return E(a.key - 2 * b.key, a.id); } };
	template<class K> void fills(G& g) {
		std::vector<E> v = input(g); size_t n = v.size(); size_t i = g.draw(n + 1), j = i + g.draw(n - i + 1); g.note("i", i); g.note("j", j);
		E x(5, 55);
		{ M<K> a(v); std::vector<E> w(v); std::fill(w.begin() + i, w.begin() + j, x); sprout::fill(a.nth(i), a.nth(j), x); SAME(a.get(), w); }
		{ M<K> a(v); std::vector<E> w(v); std::fill_n(w.begin() + i, j - i, x); auto r = sprout::fill_n(a.nth(i), int(j - i), x); CHECK_EQ(a.at(r), long(j)); SAME(a.get(), w); }
		{ M<K> a(v); std::vector<E> w(v); std::generate(w.begin() + i, w.begin() + j, Gen{0}); sprout::generate(a.nth(i), a.nth(j), Gen{0}); SAME(a.get(), w); }
		{ M<K> a(v); std::vector<E> w(v); std::generate_n(w.begin() + i, j - i, Gen{0}); auto r = sprout::generate_n(a.nth(i), int(j - i), Gen{0}); CHECK_EQ(a.at(r), long(j)); SAME(a.get(), w); }
		{ M<K> a(v); Dst<K> d(j - i); std::vector<E> w(j - i); std::transform(v.begin() + i, v.begin() + j, w.begin(), Neg()); auto r = sprout::transform(a.nth(i), a.nth(j), d.b(), Neg()); CHECK_EQ(d.at(r), long(j - i)); SAME(d.get(), w); }
		{ M<K> a(v), b(v); Dst<K> d(j - i); std::vector<E> w(j - i); std::transform(v.begin() + i, v.begin() + j, v.begin(), w.begin(), Sub()); auto r = sprout::transform(a.nth(i), a.nth(j), b.b(), d.b(), Sub()); CHECK_EQ(d.at(r), long(j - i)); SAME(d.get(), w); }
		{ M<K> a(v); std::vector<E> s; struct F { std::vector<E>* s; int c; void operator()(E& e) { ++c; s->push_back(e); } } f = {&s, 0}; auto r = sprout::for_each(a.nth(i), a.nth(j), f); CHECK_EQ(r.c, int(j - i)); SAME(s, std::vector<E>(v.begin() + i, v.begin() + j));
			s.clear(); auto t = sprout::for_each_n(a.nth(i), int(j - i), f); CHECK_EQ(a.at(t), long(j)); SAME(s, std::vector<E>(v.begin() + i, v.begin() + j)); }
		{ M<K> a(v), b(elems(g.ints(0, 0, 0))); std::vector<E> u = elems(g.ints(0, 0, 0)); (void)u; M<K> c(elems(std::vector<int>(n, 7), 500)); std::vector<E> w(v), z(c.v); std::swap_ranges(w.begin() + i, w.begin() + j, z.begin()); auto r = sprout::swap_ranges(a.nth(i), a.nth(j), c.b()); CHECK_EQ(c.at(r), long(j - i)); SAME(a.get(), w); SAME(c.get(), z); }
		if (n) { M<K> a(v); size_t x1 = g.draw(n), y1 = g.draw(n); std::vector<E> w(v); std::swap(w[x1], w[y1]); sprout::iter_swap(a.nth(x1), a.nth(y1)); SAME(a.get(), w); }
		{ M<K> a(v); E lo(g.irange(-3, 3), 91), hi(lo.key + g.irange(0, 6), 92); Dst<K> d(n); std::vector<E> w; for (E const& e : v) w.push_back(e < lo ? lo : hi < e ? hi : e); auto r = sprout::clamp_range(a.b(), a.e(), d.b(), lo, hi); CHECK_EQ(d.at(r), long(n)); SAME(d.get(), w);
			Dst<K> d2(n); auto r2 = sprout::clamp_range(a.b(), a.e(), d2.b(), hi, lo, Greater()); CHECK_EQ(d2.at(r2), long(n)); w.clear(); for (E const& e : v) w.push_back(e > hi ? hi : lo > e ? lo : e); SAME(d2.get(), w); }
	}
	PROP_KINDS5(fills, 2)

	template<class K> void removes(G& g) {
		std::vector<E> v = input(g); size_t n = v.size(); (void)n;
		ModIs p = {g.irange(1, 4), g.irange(0, 2)}; E x(g.irange(-2, 3)); EqMod q = {g.irange(1, 4)}; g.note("m", p.m); g.note("r", p.r); g.note("x", x.key); g.note("q", q.m);
#define PREFIX(call, ref) { M<K> a(v); std::vector<E> w(v); auto rs = ref; auto r = call; CHECK_EQ(a.at(r), long(rs - w.begin())); std::vector<E> got = a.get(); got.resize(rs - w.begin()); w.erase(rs, w.end()); SAME(got, w); }
		PREFIX(sprout::remove(a.b(), a.e(), x), std::remove(w.begin(), w.end(), x))
		PREFIX(sprout::remove_if(a.b(), a.e(), p), std::remove_if(w.begin(), w.end(), p))
		PREFIX(sprout::unique(a.b(), a.e()), std::unique(w.begin(), w.end()))
		PREFIX(sprout::unique(a.b(), a.e(), q), std::unique(w.begin(), w.end(), q))
		{ M<K> a(v); std::vector<E> w; std::unique_copy(v.begin(), v.end(), std::back_inserter(w)); Dst<K> d(w.size()); auto r = sprout::unique_copy(a.b(), a.e(), d.b()); CHECK_EQ(d.at(r), long(w.size())); SAME(d.get(), w); }
		{ M<K> a(v); std::vector<E> w; std::unique_copy(v.begin(), v.end(), std::back_inserter(w), q); Dst<K> d(w.size()); auto r = sprout::unique_copy(a.b(), a.e(), d.b(), q); CHECK_EQ(d.at(r), long(w.size())); SAME(d.get(), w); }
	}
	PROP_KINDS5(removes, 3)

	template<class K> void rotates(G& g) {
		std::vector<E> v = input(g); size_t n = v.size(); size_t m = g.draw(n + 1); g.note("m", m);
		{ M<K> a(v); std::vector<E> w(v); std::rotate(w.begin(), w.begin() + m, w.end()); auto r = sprout::rotate(a.b(), a.nth(m), a.e()); SAME(a.get(), w); CHECK_EQ(a.at(r), long(n - m)); }
		{ M<K> a(v); std::vector<E> w(v); std::rotate(w.begin(), w.begin() + m, w.end()); Dst<K> d(n); auto r = sprout::rotate_copy(a.b(), a.nth(m), a.e(), d.b()); SAME(d.get(), w); CHECK_EQ(d.at(r), long(n)); }
	}
	PROP_KINDS5(rotates, 3)

	std::multiset<std::pair<int, int> > bag(std::vector<E> const& v) { std::multiset<std::pair<int, int> > s; for (E const& e : v) s.insert(std::make_pair(e.key, e.id)); return s; }
	template<class K> void partitions(G& g) {
		std::vector<E> v = input(g); ModIs p = {g.irange(1, 4), g.irange(0, 2)}; g.note("m", p.m); g.note("r", p.r);
		long c = std::count_if(v.begin(), v.end(), p);
		{ M<K> a(v); auto r = sprout::partition(a.b(), a.e(), p); CHECK_EQ(a.at(r), c); std::vector<E> o = a.get(); CHECK(std::is_partitioned(o.begin(), o.end(), p)); CHECK(bag(o) == bag(v)); }
		{ M<K> a(v); std::vector<E> t, f; for (E const& e : v) (p(e) ? t : f).push_back(e); Dst<K> x(t.size()), y(f.size()); auto r = sprout::partition_copy(a.b(), a.e(), x.b(), y.b(), p); CHECK_EQ(x.at(r.first), long(t.size())); CHECK_EQ(y.at(r.second), long(f.size())); SAME(x.get(), t); SAME(y.get(), f); }
	}
	PROP_KINDS5(partitions, 3)
	template<class K> void stable_partitions(G& g) {
		std::vector<E> v = input(g); size_t n = v.size(); ModIs p = {g.irange(1, 4), g.irange(0, 2)}; g.note("m", p.m); g.note("r", p.r);
		{ M<K> a(v); std::vector<E> w(v); auto rs = std::stable_partition(w.begin(), w.end(), p); auto r = sprout::stable_partition(a.b(), a.e(), p); SAME(a.get(), w); CHECK_EQ(a.at(r), long(rs - w.begin())); }
		{ size_t k = g.draw(n + 1); g.note("pivot", k); M<K> a(v); std::vector<E> w(v);
			struct Not { ModIs p; bool operator()(E const& e) const { return !p(e); } } np = {p};
			auto f = std::stable_partition(w.begin(), w.begin() + k, np); auto s = std::stable_partition(w.begin() + k, w.end(), p);
			struct PM : ModIs { typedef E argument_type; typedef bool result_type; PM(ModIs m) : ModIs(m) {} } pm(p);
			auto r = sprout::gather(a.b(), a.e(), a.nth(k), pm); SAME(a.get(), w); CHECK_EQ(a.at(r.first), long(f - w.begin())); CHECK_EQ(a.at(r.second), long(s - w.begin())); }
	}
	PROP_KINDS_BI(stable_partitions, 3)

	// random algorithms: the result is a permutation of the input (or a selection), for every generator
	template<class K> void shuffles(G& g) {
		std::vector<E> v = input(g); std::minstd_rand eng(unsigned(g.range(1, 1000000))); std::mt19937 mt(unsigned(g.range(0, 1000000)));
		{ M<K> a(v); sprout::shuffle(a.b(), a.e(), eng); CHECK(bag(a.get()) == bag(v)); }
		{ M<K> a(v); struct R { std::mt19937* m; long operator()(long n) { return long((*m)() % (unsigned long)n); } } r = {&mt}; sprout::random_shuffle(a.b(), a.e(), r); CHECK(bag(a.get()) == bag(v)); }
		{ M<K> a(v); sprout::random_swap(a.b(), a.e(), mt); std::vector<E> o = a.get(); CHECK(bag(o) == bag(v)); int diff = 0; for (size_t i = 0; i < o.size(); ++i) diff += !o[i].same(v[i]); CHECK(diff == 0 || diff == 2); }
		{ M<K> a(v); long k = long(g.draw(v.size() + 3)); g.note("k", k); Dst<K> d(std::min(size_t(k), v.size())); auto r = sprout::sample(a.b(), a.e(), d.b(), k, mt); CHECK_EQ(d.at(r), long(d.v.size()));
			auto x = bag(d.get()), y = bag(v); CHECK(std::includes(y.begin(), y.end(), x.begin(), x.end())); }
	}
	PROP_KINDS_RA(shuffles, 4)
	template<class K> void silly_sorts(G& g) {
		std::vector<E> v = input(g, 4); std::mt19937 mt(unsigned(g.range(0, 1000000)));
		{ M<K> a(v); sprout::bogo_sort(a.b(), a.e(), mt); std::vector<E> o = a.get(); CHECK(std::is_sorted(o.begin(), o.end())); CHECK(bag(o) == bag(v)); }
		{ M<K> a(v); sprout::bogo_sort(a.b(), a.e(), mt, Greater()); std::vector<E> o = a.get(); CHECK(std::is_sorted(o.begin(), o.end(), Greater())); CHECK(bag(o) == bag(v)); }
		{ M<K> a(v); sprout::bozo_sort(a.b(), a.e(), mt); std::vector<E> o = a.get(); CHECK(std::is_sorted(o.begin(), o.end())); CHECK(bag(o) == bag(v)); }
		{ M<K> a(v); sprout::bozo_sort(a.b(), a.e(), mt, Greater()); std::vector<E> o = a.get(); CHECK(std::is_sorted(o.begin(), o.end(), Greater())); CHECK(bag(o) == bag(v)); }
	}
	PROP_KINDS_RA(silly_sorts, 1)
}
