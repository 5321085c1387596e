// In-place sorting, selection, heaps, merging, set operations and permutations against the C++ standard library.
#include "iters.hpp"
#include <sprout/algorithm/modifying.hpp>
#include <sprout/algorithm/cxx14.hpp>
#include <algorithm>
using namespace ck;
using pbt::G;

namespace {
	template<class K> struct M {
		std::vector<E> v; typename K::template R<E> r;
		explicit M(std::vector<E> const& x) : v(x), r(v) {}
		typename K::template R<E>::miter b() { return r.mbegin(); }
		typename K::template R<E>::miter e() { return r.mend(); }
		typename K::template R<E>::miter nth(long n) { auto i = r.mbegin(); std::advance(i, n); return i; }
		template<class I> long at(I const& i) const { return r.index(i); }
		std::vector<E> get() const { return r.get(); }
	};
#define SAME(got, want) do { std::vector<E> g_ = (got), w_ = (want); CHECK_MSG(same(g_, w_), "got " << pbt::show(g_) << " expected " << pbt::show(w_)); } while (0)
	std::vector<std::pair<int, int> > bag(std::vector<E> const& v) { std::vector<std::pair<int, int> > s; for (E const& e : v) s.push_back(std::make_pair(e.key, e.id)); std::sort(s.begin(), s.end()); return s; }
	std::vector<E> blanks(size_t n) { return std::vector<E>(n, E(-777, -777)); }

	// inputs that stress the branches of an introsort: random, few distinct keys, ascending, descending, organ pipe, sorted with a few edits, long
	std::vector<E> input(G& g, size_t big) {
		std::vector<int> k;
		switch (g.draw(8)) {
		case 0: case 1: case 2: k = g.vec(60); break;
		case 3: { size_t n = g.size(big); int d = g.pick({1, 2, 5, 50, 100000}); k.resize(n); uint64_t s = g.draw(0); pbt::Rng r(s); for (auto& x : k) x = int(r.below(d)); break; }
		case 4: { size_t n = g.size(big); int q = g.irange(1, 4); for (size_t i = 0; i < n; ++i) k.push_back(int(i) / q); size_t e = g.size(3); for (size_t i = 0; i < e && n; ++i) k[g.draw(n)] = g.irange(-2, int(n)); break; }
		case 5: { size_t n = g.size(big); int q = g.irange(1, 4); for (size_t i = 0; i < n; ++i) k.push_back(int(n - i) / q); size_t e = g.size(3); for (size_t i = 0; i < e && n; ++i) k[g.draw(n)] = g.irange(-2, int(n)); break; }
		case 6: { size_t n = g.size(big); for (size_t i = 0; i < n; ++i) k.push_back(int(i < n / 2 ? i : n - i)); break; }
		default: { size_t n = g.size(big); size_t m = g.draw(n + 1); for (size_t i = 0; i < n; ++i) k.push_back(int((i + m) % (n ? n : 1))); break; }
		}
		std::vector<E> v = elems(k); if (v.size() < 80) g.note("a", v); else g.note("n", v.size());
		g.nontrivial(v.size() > 1); if (v.size() >= 1000) g.label("1000 or more elements");
		if (v.size() > 30) g.label("over 30 elements");
		return v;
	}
	template<class K, class C> void sorts_with(G& g, C c, bool plain) {
		std::vector<E> v = input(g, 1300);
		{ M<K> a(v); std::vector<E> w(v); std::stable_sort(w.begin(), w.end(), c); sprout::stable_sort(a.b(), a.e(), c); SAME(a.get(), w); }
		{ M<K> a(v); sprout::sort(a.b(), a.e(), c); std::vector<E> o = a.get(); CHECK(std::is_sorted(o.begin(), o.end(), c)); CHECK(bag(o) == bag(v)); }
		if (plain) {
			{ M<K> a(v); std::vector<E> w(v); std::stable_sort(w.begin(), w.end()); sprout::stable_sort(a.b(), a.e()); SAME(a.get(), w); }
			{ M<K> a(v); sprout::sort(a.b(), a.e()); std::vector<E> o = a.get(); CHECK(std::is_sorted(o.begin(), o.end())); CHECK(bag(o) == bag(v)); }
		}
	}
	template<class K, class C> void select_with(G& g, C c, bool plain) {
		std::vector<E> v = input(g, 1100); size_t n = v.size(), k = g.draw(n + 1); g.note("k", k);
		std::vector<E> s(v); std::stable_sort(s.begin(), s.end(), c);
		for (int m = 0; m <= int(plain); ++m) {
			{ M<K> a(v); if (m) sprout::partial_sort(a.b(), a.nth(k), a.e()); else sprout::partial_sort(a.b(), a.nth(k), a.e(), c); std::vector<E> o = a.get(); CHECK(bag(o) == bag(v));
				for (size_t i = 0; i < k; ++i) CHECK(!c(o[i], s[i]) && !c(s[i], o[i])); }
			{ M<K> a(v); size_t z = k + g.draw(3); M<K> d(blanks(z)); auto r = m ? sprout::partial_sort_copy(a.b(), a.e(), d.b(), d.e()) : sprout::partial_sort_copy(a.b(), a.e(), d.b(), d.e(), c); size_t q = std::min(z, n); CHECK_EQ(d.at(r), long(q)); std::vector<E> o = d.get();
				for (size_t i = 0; i < q; ++i) CHECK(!c(o[i], s[i]) && !c(s[i], o[i])); for (size_t i = q; i < z; ++i) CHECK(o[i].same(E(-777, -777)));
				std::vector<E> h(o.begin(), o.begin() + q); auto x = bag(h), y = bag(v); CHECK(std::includes(y.begin(), y.end(), x.begin(), x.end())); }
			{ M<K> a(v); if (m) sprout::nth_element(a.b(), a.nth(k), a.e()); else sprout::nth_element(a.b(), a.nth(k), a.e(), c); std::vector<E> o = a.get(); CHECK(bag(o) == bag(v));
				if (k < n) { CHECK(!c(o[k], s[k]) && !c(s[k], o[k])); for (size_t i = 0; i < k; ++i) CHECK(!c(o[k], o[i])); for (size_t i = k + 1; i < n; ++i) CHECK(!c(o[i], o[k])); } }
		}
	}
	template<class K, class C> void heaps_with(G& g, C c, bool plain) {
		std::vector<E> v = input(g, 200);
		for (int m = 0; m <= int(plain); ++m) {
			M<K> a(v); if (m) sprout::make_heap(a.b(), a.e()); else sprout::make_heap(a.b(), a.e(), c);
			std::vector<E> o = a.get(); CHECK(std::is_heap(o.begin(), o.end(), c)); CHECK(bag(o) == bag(v));
			{ M<K> b(o); if (m) sprout::sort_heap(b.b(), b.e()); else sprout::sort_heap(b.b(), b.e(), c); std::vector<E> s = b.get(); CHECK(std::is_sorted(s.begin(), s.end(), c)); CHECK(bag(s) == bag(v)); }
			if (!o.empty()) { M<K> b(o); if (m) sprout::pop_heap(b.b(), b.e()); else sprout::pop_heap(b.b(), b.e(), c); std::vector<E> s = b.get(); CHECK(std::is_heap(s.begin(), s.end() - 1, c)); CHECK(s.back().same(o.front()) || (!c(s.back(), o.front()) && !c(o.front(), s.back()))); CHECK(bag(s) == bag(v)); }
			{ o.push_back(E(g.irange(-5, 60), 5000)); M<K> b(o); if (m) sprout::push_heap(b.b(), b.e()); else sprout::push_heap(b.b(), b.e(), c); std::vector<E> s = b.get(); CHECK(std::is_heap(s.begin(), s.end(), c)); CHECK(bag(s) == bag(o)); }
			// build by pushing, one element at a time
			{ M<K> b(v); for (size_t i = 1; i <= v.size() && i < 60; ++i) { sprout::push_heap(b.b(), b.nth(i), c); } std::vector<E> s = b.get(); CHECK(std::is_heap(s.begin(), s.begin() + std::min<size_t>(v.size(), 59), c)); }
		}
	}
	template<class K, class C> void merges_with(G& g, C c, bool plain) {
		std::vector<E> v = input(g, 200); size_t n = v.size(), k = g.draw(n + 1);
		std::vector<E> x(v.begin(), v.begin() + k), y(v.begin() + k, v.end());
		if (g.chance(1, 3)) { y = x; for (auto& e : y) e.id += 3000; if (!y.empty() && g.flag()) y.erase(y.begin() + g.draw(y.size())); if (g.flag()) y.push_back(E(g.irange(-3, 9), 4000)); }
		std::stable_sort(x.begin(), x.end(), c); std::stable_sort(y.begin(), y.end(), c); g.note("x", x); g.note("y", y);
		M<K> a(x), b(y);
#define OUT(name) { std::vector<E> w; std::name(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(w), c); \
			{ M<K> d(blanks(w.size())); auto r = sprout::name(a.b(), a.e(), b.b(), b.e(), d.b(), c); CHECK_EQ(d.at(r), long(w.size())); SAME(d.get(), w); } \
			if (plain) { M<K> d(blanks(w.size())); auto r = sprout::name(a.b(), a.e(), b.b(), b.e(), d.b()); CHECK_EQ(d.at(r), long(w.size())); SAME(d.get(), w); } }
		OUT(merge) OUT(set_union) OUT(set_intersection) OUT(set_difference) OUT(set_symmetric_difference)
		std::vector<E> z(x); z.insert(z.end(), y.begin(), y.end()); std::vector<E> w(z); std::inplace_merge(w.begin(), w.begin() + x.size(), w.end(), c);
		{ M<K> d(z); sprout::inplace_merge(d.b(), d.nth(x.size()), d.e(), c); SAME(d.get(), w); }
		if (plain) { M<K> d(z); sprout::inplace_merge(d.b(), d.nth(x.size()), d.e()); SAME(d.get(), w); }
	}
	template<class K, class C> void perms_with(G& g, C c, bool plain) {
		std::vector<E> v = elems(g.vec(9)); g.note("a", v); g.nontrivial(v.size() > 1);
		if (g.chance(1, 4)) std::stable_sort(v.begin(), v.end(), c);
		if (g.chance(1, 4)) { std::stable_sort(v.begin(), v.end(), c); std::reverse(v.begin(), v.end()); }
		for (int m = 0; m <= int(plain); ++m) {
			{ M<K> a(v); std::vector<E> w(v); bool rs = std::next_permutation(w.begin(), w.end(), c); bool r = m ? sprout::next_permutation(a.b(), a.e()) : sprout::next_permutation(a.b(), a.e(), c); CHECK_EQ(r, rs); SAME(a.get(), w); }
			{ M<K> a(v); std::vector<E> w(v); bool rs = std::prev_permutation(w.begin(), w.end(), c); bool r = m ? sprout::prev_permutation(a.b(), a.e()) : sprout::prev_permutation(a.b(), a.e(), c); CHECK_EQ(r, rs); SAME(a.get(), w); }
		}
	}
#define THREE(name) template<class K> void name(G& g) { switch (g.draw(3)) { case 0: name##_with<K>(g, Less(), true); break; case 1: name##_with<K>(g, Greater(), false); break; default: { LessDiv q = {g.irange(1, 5)}; name##_with<K>(g, q, false); } } }
	THREE(sorts) THREE(select) THREE(heaps) THREE(merges) THREE(perms)
	PROP_KINDS_RA(sorts, 3)
	PROP_KINDS_RA(select, 3)
	PROP_KINDS_RA(heaps, 2)
	PROP_KINDS_BI(merges, 2)
	PROP_KINDS_BI(perms, 2)

	// an element type that is not trivially copyable takes another threshold
	struct S { int k; std::string s; S(int x = 0) : k(x), s(1, char('a' + (x & 15))) {} bool operator<(S const& o) const { return k < o.k; } bool operator==(S const& o) const { return k == o.k && s == o.s; } };
	PROP(sort_nontrivial_type, 3) {
		std::vector<E> v = input(g, 300); std::vector<S> a, w; for (E const& e : v) a.push_back(S(e.key)); w = a; std::stable_sort(w.begin(), w.end());
		std::vector<S> b(a), c(a), d(a); sprout::sort(b.begin(), b.end()); CHECK(b == w);
		sprout::stable_sort(c.begin(), c.end()); CHECK(c == w);
		if (!d.empty()) { size_t k = g.draw(d.size()); sprout::nth_element(d.begin(), d.begin() + k, d.end()); CHECK(d[k] == w[k]); }
	}
}
