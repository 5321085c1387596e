// Queries about order: sorted ranges, binary searches, partitions, heaps, set relations, against the C++ standard library.
#include "iters.hpp"
#include <sprout/algorithm/non_modifying.hpp>
#include <algorithm>
using namespace ck;
using pbt::G;

namespace {
	enum { N = 70 };
	template<class K> struct In {
		std::vector<E> v; typename K::template R<E> r;
		explicit In(std::vector<E> const& x) : v(x), r(v) {}
		typename K::template R<E>::iter b() const { return r.begin(); }
		typename K::template R<E>::iter e() const { return r.end(); }
		template<class I> long at(I const& i) const { return r.index(i); }
		typename std::vector<E>::const_iterator vb() const { return v.begin(); }
		typename std::vector<E>::const_iterator ve() const { return v.end(); }
		long vat(typename std::vector<E>::const_iterator i) const { return long(i - v.begin()); }
	};
	template<class C> std::vector<E> sorted(G& g, size_t n, C c, int base = 0) { std::vector<E> v = elems(g.vec(n), base); std::stable_sort(v.begin(), v.end(), c); return v; }

	template<class K, class C> void bounds_with(G& g, C c, bool plain) {
		In<K> a(sorted(g, N, c)); g.note("a", a.v); g.nontrivial(a.v.size() > 1);
		E x(g.irange(-8, 20)); if (g.flag() && !a.v.empty()) { x = a.v[g.draw(a.v.size())]; x.key += g.irange(-1, 1); }
		g.note("x", x.key);
		CHECK_EQ(a.at(sprout::lower_bound(a.b(), a.e(), x, c)), a.vat(std::lower_bound(a.vb(), a.ve(), x, c)));
		CHECK_EQ(a.at(sprout::upper_bound(a.b(), a.e(), x, c)), a.vat(std::upper_bound(a.vb(), a.ve(), x, c)));
		CHECK_EQ(sprout::binary_search(a.b(), a.e(), x, c), std::binary_search(a.vb(), a.ve(), x, c));
		auto p = sprout::equal_range(a.b(), a.e(), x, c); auto s = std::equal_range(a.vb(), a.ve(), x, c);
		CHECK_EQ(a.at(p.first), a.vat(s.first)); CHECK_EQ(a.at(p.second), a.vat(s.second));
		if (plain) {
			CHECK_EQ(a.at(sprout::lower_bound(a.b(), a.e(), x)), a.vat(std::lower_bound(a.vb(), a.ve(), x)));
			CHECK_EQ(a.at(sprout::upper_bound(a.b(), a.e(), x)), a.vat(std::upper_bound(a.vb(), a.ve(), x)));
			CHECK_EQ(sprout::binary_search(a.b(), a.e(), x), std::binary_search(a.vb(), a.ve(), x));
			auto p1 = sprout::equal_range(a.b(), a.e(), x); auto s1 = std::equal_range(a.vb(), a.ve(), x);
			CHECK_EQ(a.at(p1.first), a.vat(s1.first)); CHECK_EQ(a.at(p1.second), a.vat(s1.second));
		}
	}
	template<class K> void bounds(G& g) {
		switch (g.draw(3)) {
		case 0: bounds_with<K>(g, Less(), true); break;
		case 1: bounds_with<K>(g, Greater(), false); break;
		default: { LessDiv q = {g.irange(1, 5)}; bounds_with<K>(g, q, false); }
		}
	}
	PROP_KINDS5(bounds, 4)

	std::vector<E> nearly_sorted(G& g, bool desc) {
		std::vector<int> k = g.vec(N);
		std::sort(k.begin(), k.end());
		if (g.flag()) { k.erase(std::unique(k.begin(), k.end()), k.end()); }
		if (desc) std::reverse(k.begin(), k.end());
		if (g.flag() && !k.empty()) k[g.draw(k.size())] += g.irange(-3, 3);
		return elems(k);
	}
	template<class K> void sortedness(G& g) {
		In<K> a(g.chance(1, 4) ? elems(g.vec(N)) : nearly_sorted(g, g.flag())); g.note("a", a.v); g.nontrivial(a.v.size() > 1);
		LessDiv q = {g.irange(1, 4)};
		bool inc = std::is_sorted(a.vb(), a.ve()), dec = std::is_sorted(a.vb(), a.ve(), Greater());
		bool adj = std::adjacent_find(a.vb(), a.ve()) != a.ve();
		if (inc) g.label("sorted");
		CHECK_EQ(sprout::is_sorted(a.b(), a.e()), inc);
		CHECK_EQ(sprout::is_sorted(a.b(), a.e(), q), std::is_sorted(a.vb(), a.ve(), q));
		CHECK_EQ(a.at(sprout::is_sorted_until(a.b(), a.e())), a.vat(std::is_sorted_until(a.vb(), a.ve())));
		CHECK_EQ(a.at(sprout::is_sorted_until(a.b(), a.e(), q)), a.vat(std::is_sorted_until(a.vb(), a.ve(), q)));
		CHECK_EQ(a.at(sprout::is_sorted_until(a.b(), a.e(), Greater())), a.vat(std::is_sorted_until(a.vb(), a.ve(), Greater())));
		CHECK_EQ(sprout::is_increasing(a.b(), a.e()), inc);
		CHECK_EQ(sprout::is_decreasing(a.b(), a.e()), dec);
		CHECK_EQ(sprout::is_strictly_increasing(a.b(), a.e()), inc && !adj);
		CHECK_EQ(sprout::is_strictly_decreasing(a.b(), a.e()), dec && !adj);
	}
	PROP_KINDS5(sortedness, 4)

	template<class K> void partitions(G& g) {
		std::vector<int> k = g.vec(N); ModIs p = {g.irange(1, 4), 0};
		std::stable_partition(k.begin(), k.end(), p);
		bool part = true;
		In<K> a0(elems(k));
		CHECK_EQ(a0.at(sprout::partition_point(a0.b(), a0.e(), p)), long(std::partition_point(k.begin(), k.end(), p) - k.begin()));
		if (g.flag() && !k.empty()) k[g.draw(k.size())] += g.irange(-2, 2);
		(void)part;
		In<K> a(elems(k)); g.note("a", k); g.note("m", p.m); g.nontrivial(k.size() > 1);
		CHECK_EQ(sprout::is_partitioned(a.b(), a.e(), p), std::is_partitioned(a.vb(), a.ve(), p));
	}
	PROP_KINDS5(partitions, 4)
	PROP_INST(partitions_ptr2, 1, partitions<KPtr>)

	template<class K> void heaps(G& g) {
		std::vector<E> v = elems(g.vec(N)); LessDiv q = {g.irange(1, 3)};
		int mode = int(g.draw(3));
		if (mode == 0) std::make_heap(v.begin(), v.end());
		if (mode == 1) std::make_heap(v.begin(), v.end(), q);
		if (mode != 2 && g.flag() && !v.empty()) v[g.draw(v.size())].key += g.irange(-2, 2);
		In<K> a(v); g.note("a", v); g.nontrivial(v.size() > 1);
		if (std::is_heap(a.vb(), a.ve())) g.label("heap");
		CHECK_EQ(sprout::is_heap(a.b(), a.e()), std::is_heap(a.vb(), a.ve()));
		CHECK_EQ(sprout::is_heap(a.b(), a.e(), q), std::is_heap(a.vb(), a.ve(), q));
		CHECK_EQ(a.at(sprout::is_heap_until(a.b(), a.e())), a.vat(std::is_heap_until(a.vb(), a.ve())));
		CHECK_EQ(a.at(sprout::is_heap_until(a.b(), a.e(), q)), a.vat(std::is_heap_until(a.vb(), a.ve(), q)));
	}
	PROP_KINDS_RA(heaps, 5)

	void twosets(G& g, std::vector<E>& x, std::vector<E>& y) {
		std::vector<int> a = g.vec(40), b;
		switch (g.draw(3)) {
		case 0: b = g.vec(40); break;
		case 1: for (int k : a) if (g.flag()) b.push_back(k); break;
		default: b = a; if (!b.empty()) b[g.draw(b.size())] += g.irange(-1, 1); if (g.flag()) b.push_back(g.irange(-3, 9)); break;
		}
		x = elems(a); y = elems(b, 1000);
		g.nontrivial(a.size() > 1 && b.size() > 0);
	}
	template<class K, class C> void sets_with(G& g, C c, bool plain) {
		std::vector<E> x, y; twosets(g, x, y);
		std::stable_sort(x.begin(), x.end(), c); std::stable_sort(y.begin(), y.end(), c);
		In<K> a(x), b(y); g.note("a", x); g.note("b", y);
		bool inc = std::includes(a.vb(), a.ve(), b.vb(), b.ve(), c);
		if (inc) g.label("includes");
		CHECK_EQ(sprout::includes(a.b(), a.e(), b.b(), b.e(), c), inc);
		if (plain) CHECK_EQ(sprout::includes(a.b(), a.e(), b.b(), b.e()), inc);
		std::vector<E> w, o;
		// walking with find_X / next_X visits exactly what std::set_X produces
		w.clear(); o.clear(); std::set_difference(a.vb(), a.ve(), b.vb(), b.ve(), std::back_inserter(w), c);
		{ auto p = sprout::find_difference(a.b(), a.e(), b.b(), b.e(), c);
			while (p.first != a.e()) { o.push_back(*p.first); auto n = sprout::next_difference(p.first, a.e(), p.second, b.e(), c); p = n; if (o.size() > 200) break; }
			CHECK_MSG(same(o, w), "difference " << pbt::show(o) << " expected " << pbt::show(w)); }
		w.clear(); o.clear(); std::set_intersection(a.vb(), a.ve(), b.vb(), b.ve(), std::back_inserter(w), c);
		{ auto p = sprout::find_intersection(a.b(), a.e(), b.b(), b.e(), c);
			while (p.first != a.e() && p.second != b.e()) { o.push_back(*p.first); auto n = sprout::next_intersection(p.first, a.e(), p.second, b.e(), c); p = n; if (o.size() > 200) break; }
			CHECK_MSG(same(o, w), "intersection " << pbt::show(o) << " expected " << pbt::show(w)); }
		w.clear(); o.clear(); std::set_symmetric_difference(a.vb(), a.ve(), b.vb(), b.ve(), std::back_inserter(w), c);
		{ auto p = sprout::find_symmetric_difference(a.b(), a.e(), b.b(), b.e(), c);
			while (p.first != a.e() || p.second != b.e()) {
				o.push_back(p.first != a.e() && (p.second == b.e() || c(*p.first, *p.second)) ? *p.first : *p.second);
				auto n = sprout::next_symmetric_difference(p.first, a.e(), p.second, b.e(), c); p = n; if (o.size() > 200) break; }
			CHECK_MSG(same(o, w), "symmetric difference " << pbt::show(o) << " expected " << pbt::show(w)); }
		w.clear(); o.clear(); std::set_union(a.vb(), a.ve(), b.vb(), b.ve(), std::back_inserter(w), c);
		{ auto f = a.b(); auto s = b.b();
			while (f != a.e() || s != b.e()) {
				o.push_back(f != a.e() && (s == b.e() || !c(*s, *f)) ? *f : *s);
				auto n = plain ? sprout::next_union(f, a.e(), s, b.e()) : sprout::next_union(f, a.e(), s, b.e(), c); f = n.first; s = n.second; if (o.size() > 200) break; }
			CHECK_MSG(same(o, w), "union " << pbt::show(o) << " expected " << pbt::show(w)); }
	}
	template<class K> void sets(G& g) {
		switch (g.draw(3)) {
		case 0: sets_with<K>(g, Less(), true); break;
		case 1: sets_with<K>(g, Greater(), false); break;
		default: { LessDiv q = {g.irange(1, 4)}; sets_with<K>(g, q, false); }
		}
	}
	PROP_KINDS5(sets, 4)
}
