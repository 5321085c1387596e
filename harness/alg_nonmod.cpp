// Non-modifying sequence algorithms against the C++ standard library, for every iterator category.
#include "iters.hpp"
#include <sprout/algorithm/non_modifying.hpp>
#include <sprout/algorithm/searching.hpp>
#include <sprout/algorithm/abs_diff.hpp>
#include <sprout/algorithm/clamp.hpp>
#include <algorithm>
using namespace ck;
using pbt::G;

namespace {
	template<class K> struct In {
		std::vector<int> k; std::vector<E> v; typename K::template R<E> r;
		explicit In(std::vector<int> const& x, int base = 0) : k(x), v(elems(x, base)), r(v) {}
		typename K::template R<E>::iter b() const { return r.begin(); }
		typename K::template R<E>::iter e() const { return r.end(); }
		template<class I> long at(I const& i) const { return r.index(i); }
		typename std::vector<E>::const_iterator vb() const { return v.begin(); }
		typename std::vector<E>::const_iterator ve() const { return v.end(); }
		long vat(typename std::vector<E>::const_iterator i) const { return long(i - v.begin()); }
		void note(G& g, char const* n) const { g.note(n, k); g.nontrivial(k.size() > 1); }
	};
	enum { N = 70 };

	template<class K> void find_(G& g) {
		In<K> a(g.vec(N)); a.note(g, "a");
		E x(g.irange(-8, 20)); if (g.flag() && !a.v.empty()) x = a.v[g.draw(a.v.size())];
		ModIs p = {g.irange(1, 9), g.irange(0, 3)};
		g.note("x", x.key); g.note("m", p.m); g.note("r", p.r);
		CHECK_EQ(a.at(sprout::find(a.b(), a.e(), x)), a.vat(std::find(a.vb(), a.ve(), x)));
		CHECK_EQ(a.at(sprout::find_if(a.b(), a.e(), p)), a.vat(std::find_if(a.vb(), a.ve(), p)));
		CHECK_EQ(a.at(sprout::find_if_not(a.b(), a.e(), p)), a.vat(std::find_if_not(a.vb(), a.ve(), p)));
	}
	PROP_KINDS6(find_, 3)

	template<class K> void quantifiers(G& g) {
		In<K> a(g.vec(N)); a.note(g, "a");
		E x(g.irange(-8, 20)); if (g.flag() && !a.v.empty()) x = a.v[g.draw(a.v.size())];
		ModIs p = {g.irange(1, 9), g.irange(0, 3)};
		if (g.chance(1, 4)) p = ModIs{1, 0};
		if (g.chance(1, 4) && !a.k.empty()) { int i = g.irange(0, int(a.k.size()) - 1); x = a.v[i]; }
		g.note("x", x.key); g.note("m", p.m); g.note("r", p.r);
		long c = std::count_if(a.vb(), a.ve(), p), n = long(a.v.size()), ce = std::count(a.vb(), a.ve(), x);
		CHECK_EQ(long(sprout::count_if(a.b(), a.e(), p)), c);
		CHECK_EQ(long(sprout::count(a.b(), a.e(), x)), ce);
		CHECK_EQ(sprout::all_of(a.b(), a.e(), p), c == n);
		CHECK_EQ(sprout::any_of(a.b(), a.e(), p), c > 0);
		CHECK_EQ(sprout::none_of(a.b(), a.e(), p), c == 0);
		CHECK_EQ(sprout::one_of(a.b(), a.e(), p), c == 1);
		CHECK_EQ(sprout::all_of_equal(a.b(), a.e(), x), ce == n);
		CHECK_EQ(sprout::any_of_equal(a.b(), a.e(), x), ce > 0);
		CHECK_EQ(sprout::none_of_equal(a.b(), a.e(), x), ce == 0);
		CHECK_EQ(sprout::one_of_equal(a.b(), a.e(), x), ce == 1);
	}
	PROP_KINDS6(quantifiers, 3)

	// all/none-like results are rare in random data: make them likely by editing one element of a uniform sequence
	template<class K> void uniform_but_one(G& g) {
		std::vector<int> k(g.size(N), 4);
		if (!k.empty() && g.chance(3, 4)) k[g.draw(k.size())] = 5;
		if (!k.empty() && g.chance(1, 4)) k[g.draw(k.size())] = 5;
		In<K> a(k); a.note(g, "a");
		ModIs even = {2, 0}, odd = {2, 1};
		long c = std::count(k.begin(), k.end(), 5), n = long(k.size());
		CHECK_EQ(sprout::all_of(a.b(), a.e(), even), c == 0);
		CHECK_EQ(sprout::none_of(a.b(), a.e(), odd), c == 0);
		CHECK_EQ(sprout::any_of(a.b(), a.e(), odd), c != 0);
		CHECK_EQ(sprout::one_of(a.b(), a.e(), odd), c == 1);
		CHECK_EQ(sprout::all_of_equal(a.b(), a.e(), E(4)), c == 0);
		CHECK_EQ(sprout::any_of_equal(a.b(), a.e(), E(5)), c != 0);
		CHECK_EQ(sprout::none_of_equal(a.b(), a.e(), E(5)), c == 0);
		CHECK_EQ(sprout::one_of_equal(a.b(), a.e(), E(5)), c == 1);
		CHECK_EQ(a.at(sprout::find(a.b(), a.e(), E(5))), a.vat(std::find(a.vb(), a.ve(), E(5))));
		CHECK_EQ(a.at(sprout::find_if(a.b(), a.e(), odd)), a.vat(std::find_if(a.vb(), a.ve(), odd)));
		CHECK_EQ(a.at(sprout::find_if_not(a.b(), a.e(), even)), a.vat(std::find_if_not(a.vb(), a.ve(), even)));
		CHECK_EQ(long(sprout::count(a.b(), a.e(), E(5))), c);
		CHECK_EQ(long(sprout::count_if(a.b(), a.e(), even)), n - c);
	}
	PROP_KINDS6(uniform_but_one, 2)

	template<class K> void adjacent(G& g) {
		std::vector<int> k = g.vec(N);
		if (g.flag()) { for (size_t i = 1; i < k.size(); ++i) if (k[i] == k[i - 1]) k[i] += 1000 + int(i); if (k.size() > 1 && g.flag()) { size_t i = 1 + g.draw(k.size() - 1); k[i] = k[i - 1]; } }
		In<K> a(k); a.note(g, "a");
		EqMod q = {g.irange(1, 7)};
		CHECK_EQ(a.at(sprout::adjacent_find(a.b(), a.e())), a.vat(std::adjacent_find(a.vb(), a.ve())));
		CHECK_EQ(a.at(sprout::adjacent_find(a.b(), a.e(), q)), a.vat(std::adjacent_find(a.vb(), a.ve(), q)));
		CHECK_EQ(a.at(sprout::adjacent_find(a.b(), a.e(), Greater())), a.vat(std::adjacent_find(a.vb(), a.ve(), Greater())));
	}
	PROP_KINDS5(adjacent, 3)

	// a pair of sequences that share a prefix, a subsequence, or nothing
	void two(G& g, std::vector<int>& a, std::vector<int>& b, size_t n = N) {
		a = g.vec(n);
		switch (g.draw(5)) {
		case 0: b = a; if (!b.empty() && g.flag()) b[g.draw(b.size())] += g.irange(-1, 1); if (g.flag() && !b.empty()) b.resize(g.draw(b.size() + 1)); break;
		case 1: b = g.vec(n); break;
		case 2: { size_t i = g.draw(a.size() + 1), j = i + g.draw(a.size() - i + 1); b.assign(a.begin() + i, a.begin() + j); if (g.chance(1, 4) && !b.empty()) b.back() += 1; break; }
		case 3: b = g.vec(4); break;
		default: b = a; { size_t e = g.size(8); for (size_t i = 0; i < e; ++i) b.push_back(g.irange(-3, 3)); } break;
		}
	}

	template<class K> void equality(G& g) {
		std::vector<int> x, y; two(g, x, y);
		In<K> a(x), b(y, 1000); a.note(g, "a"); b.note(g, "b");
		EqMod q = {g.irange(1, 5)};
		bool eq = a.v.size() == b.v.size() && std::equal(a.vb(), a.ve(), b.vb());
		bool eqp = a.v.size() == b.v.size() && std::equal(a.vb(), a.ve(), b.vb(), q);
		CHECK_EQ(sprout::equal(a.b(), a.e(), b.b(), b.e()), eq);
		CHECK_EQ(sprout::equal(a.b(), a.e(), b.b(), b.e(), q), eqp);
		size_t n = std::min(x.size(), y.size());
		auto m = std::mismatch(a.vb(), a.vb() + n, b.vb());
		auto mq = std::mismatch(a.vb(), a.vb() + n, b.vb(), q);
		auto s = sprout::mismatch(a.b(), a.e(), b.b(), b.e());
		auto sq = sprout::mismatch(a.b(), a.e(), b.b(), b.e(), q);
		CHECK_EQ(a.at(s.first), a.vat(m.first)); CHECK_EQ(b.at(s.second), b.vat(m.second));
		CHECK_EQ(a.at(sq.first), a.vat(mq.first)); CHECK_EQ(b.at(sq.second), b.vat(mq.second));
		if (x.size() <= y.size()) {
			CHECK_EQ(sprout::equal(a.b(), a.e(), b.b()), std::equal(a.vb(), a.ve(), b.vb()));
			CHECK_EQ(sprout::equal(a.b(), a.e(), b.b(), q), std::equal(a.vb(), a.ve(), b.vb(), q));
			auto t = sprout::mismatch(a.b(), a.e(), b.b());
			auto tq = sprout::mismatch(a.b(), a.e(), b.b(), q);
			CHECK_EQ(a.at(t.first), a.vat(m.first)); CHECK_EQ(b.at(t.second), b.vat(m.second));
			CHECK_EQ(a.at(tq.first), a.vat(mq.first)); CHECK_EQ(b.at(tq.second), b.vat(mq.second));
		}
	}
	PROP_KINDS6(equality, 3)

	template<class K> void lexicographic(G& g) {
		std::vector<int> x, y; two(g, x, y);
		In<K> a(x), b(y, 1000); a.note(g, "a"); b.note(g, "b");
		LessDiv q = {g.irange(1, 4)};
		bool lt = std::lexicographical_compare(a.vb(), a.ve(), b.vb(), b.ve()), gt = std::lexicographical_compare(b.vb(), b.ve(), a.vb(), a.ve());
		bool ltq = std::lexicographical_compare(a.vb(), a.ve(), b.vb(), b.ve(), q), gtq = std::lexicographical_compare(b.vb(), b.ve(), a.vb(), a.ve(), q);
		CHECK_EQ(sprout::lexicographical_compare(a.b(), a.e(), b.b(), b.e()), lt);
		CHECK_EQ(sprout::lexicographical_compare(a.b(), a.e(), b.b(), b.e(), q), ltq);
		int t = sprout::tristate_lexicographical_compare(a.b(), a.e(), b.b(), b.e());
		int tq = sprout::tristate_lexicographical_compare(a.b(), a.e(), b.b(), b.e(), q);
		CHECK_EQ((t > 0) - (t < 0), int(gt) - int(lt));
		CHECK_EQ((tq > 0) - (tq < 0), int(gtq) - int(ltq));
	}
	PROP_KINDS6(lexicographic, 3)

	template<class K> void permutation(G& g) {
		std::vector<int> x = g.vec(24), y = x;
		for (size_t i = y.size(); i > 1; --i) std::swap(y[i - 1], y[g.draw(i)]);
		if (g.flag() && !y.empty()) y[g.draw(y.size())] += g.irange(-1, 1);
		if (g.chance(1, 6)) y.push_back(g.irange(-3, 3));
		if (g.chance(1, 8) && !y.empty()) y.pop_back();
		In<K> a(x), b(y, 1000); a.note(g, "a"); b.note(g, "b");
		EqMod q = {g.irange(1, 5)};
		bool p4 = x.size() == y.size() && std::is_permutation(a.vb(), a.ve(), b.vb());
		bool p4q = x.size() == y.size() && std::is_permutation(a.vb(), a.ve(), b.vb(), q);
		if (p4) g.label("is a permutation");
		CHECK_EQ(sprout::is_permutation(a.b(), a.e(), b.b(), b.e()), p4);
		CHECK_EQ(sprout::is_permutation(a.b(), a.e(), b.b(), b.e(), q), p4q);
		if (x.size() <= y.size()) {
			CHECK_EQ(sprout::is_permutation(a.b(), a.e(), b.b()), std::is_permutation(a.vb(), a.ve(), b.vb()));
			CHECK_EQ(sprout::is_permutation(a.b(), a.e(), b.b(), q), std::is_permutation(a.vb(), a.ve(), b.vb(), q));
		}
	}
	PROP_KINDS5(permutation, 3)

	template<class K> void searching(G& g) {
		std::vector<int> x, y; two(g, x, y, 50);
		if (g.chance(1, 3)) { // small alphabet, pattern with self-overlap
			x.clear(); y.clear(); size_t n = g.size(50), m = g.size(6);
			for (size_t i = 0; i < n; ++i) x.push_back(g.irange(0, 1));
			for (size_t i = 0; i < m; ++i) y.push_back(g.irange(0, 1));
		}
		In<K> a(x), b(y, 1000); a.note(g, "a"); b.note(g, "b");
		EqMod q = {g.irange(1, 4)};
		auto f = std::search(a.vb(), a.ve(), b.vb(), b.ve());
		if (f != a.ve() && !y.empty()) g.label("pattern found");
		CHECK_EQ(a.at(sprout::search(a.b(), a.e(), b.b(), b.e())), a.vat(f));
		CHECK_EQ(a.at(sprout::search(a.b(), a.e(), b.b(), b.e(), q)), a.vat(std::search(a.vb(), a.ve(), b.vb(), b.ve(), q)));
		CHECK_EQ(a.at(sprout::find_end(a.b(), a.e(), b.b(), b.e())), a.vat(std::find_end(a.vb(), a.ve(), b.vb(), b.ve())));
		CHECK_EQ(a.at(sprout::find_end(a.b(), a.e(), b.b(), b.e(), q)), a.vat(std::find_end(a.vb(), a.ve(), b.vb(), b.ve(), q)));
		typedef decltype(b.b()) BI;
		CHECK_EQ(a.at(sprout::search(a.b(), a.e(), sprout::default_searcher<BI>(b.b(), b.e()))), a.vat(f));
		CHECK_EQ(a.at(sprout::search(a.b(), a.e(), sprout::default_searcher<BI, EqMod>(b.b(), b.e(), q))), a.vat(std::search(a.vb(), a.ve(), b.vb(), b.ve(), q)));
	}
	PROP_KINDS5(searching, 4)

	template<class K> void search_runs(G& g) {
		std::vector<int> x; size_t runs = g.size(12);
		for (size_t i = 0; i < runs; ++i) { int k = g.irange(0, 2), n = g.irange(1, 6); x.insert(x.end(), n, k); }
		In<K> a(x); a.note(g, "a");
		int n = g.irange(1, 8); E v(g.irange(0, 2)); EqMod q = {g.irange(1, 3)};
		if (g.chance(1, 12)) n = int(x.size()) + g.irange(-1, 1);
		g.note("count", n); g.note("value", v.key);
		CHECK_EQ(a.at(sprout::search_n(a.b(), a.e(), n, v)), a.vat(std::search_n(a.vb(), a.ve(), n, v)));
		CHECK_EQ(a.at(sprout::search_n(a.b(), a.e(), n, v, q)), a.vat(std::search_n(a.vb(), a.ve(), n, v, q)));
	}
	PROP_KINDS5(search_runs, 4)

	template<class K> void search_zero_run(G& g) {
		In<K> a(g.vec(12)); a.note(g, "a");
		CHECK_EQ(a.at(sprout::search_n(a.b(), a.e(), 0, E(1))), 0);
		CHECK_EQ(a.at(sprout::search_n(a.b(), a.e(), 0, E(1), EqMod{2})), 0);
	}
	PROP_KINDS5(search_zero_run, 0.3)

	template<class K> void first_of(G& g) {
		std::vector<int> x = g.vec(N), y = g.vec(6);
		if (g.flag()) for (size_t i = 0; i < y.size(); ++i) y[i] += 1000 * int(g.draw(2));
		In<K> a(x), b(y, 1000); a.note(g, "a"); b.note(g, "b");
		EqMod q = {g.irange(1, 30)};
		CHECK_EQ(a.at(sprout::find_first_of(a.b(), a.e(), b.b(), b.e())), a.vat(std::find_first_of(a.vb(), a.ve(), b.vb(), b.ve())));
		CHECK_EQ(a.at(sprout::find_first_of(a.b(), a.e(), b.b(), b.e(), q)), a.vat(std::find_first_of(a.vb(), a.ve(), b.vb(), b.ve(), q)));
	}
	PROP_KINDS6(first_of, 2)

	template<class K> void extremes(G& g) {
		std::vector<int> x = g.vec(N); In<K> a(x); a.note(g, "a");
		LessDiv q = {g.irange(1, 4)};
		CHECK_EQ(a.at(sprout::min_element(a.b(), a.e())), a.vat(std::min_element(a.vb(), a.ve())));
		CHECK_EQ(a.at(sprout::max_element(a.b(), a.e())), a.vat(std::max_element(a.vb(), a.ve())));
		CHECK_EQ(a.at(sprout::min_element(a.b(), a.e(), q)), a.vat(std::min_element(a.vb(), a.ve(), q)));
		CHECK_EQ(a.at(sprout::max_element(a.b(), a.e(), q)), a.vat(std::max_element(a.vb(), a.ve(), q)));
		auto m = sprout::minmax_element(a.b(), a.e()); auto s = std::minmax_element(a.vb(), a.ve());
		CHECK_EQ(a.at(m.first), a.vat(s.first)); CHECK_EQ(a.at(m.second), a.vat(s.second));
		auto mq = sprout::minmax_element(a.b(), a.e(), q); auto sq = std::minmax_element(a.vb(), a.ve(), q);
		CHECK_EQ(a.at(mq.first), a.vat(sq.first)); CHECK_EQ(a.at(mq.second), a.vat(sq.second));
	}
	PROP_KINDS5(extremes, 3)

	void scalars(G& g) {
		int d = g.pick({1, 3, 100, 1000000});
		E a(g.irange(-d, d), 1), b(g.irange(-d, d), 2), c(g.irange(-d, d), 3), e(g.irange(-d, d), 4);
		if (g.chance(1, 3)) b.key = a.key;
		LessDiv q = {g.irange(1, 4)};
		g.note("a", a); g.note("b", b); g.note("c", c); g.note("e", e); g.nontrivial();
		CHECK(sprout::min(a, b).same(std::min(a, b))); CHECK(sprout::max(a, b).same(std::max(a, b)));
		CHECK(sprout::min(a, b, q).same(std::min(a, b, q))); CHECK(sprout::max(a, b, q).same(std::max(a, b, q)));
		CHECK(&sprout::min(a, b) == &std::min(a, b)); CHECK(&sprout::max(a, b) == &std::max(a, b));
		CHECK(sprout::minmax(a, b).first.same(std::minmax(a, b).first)); CHECK(sprout::minmax(a, b).second.same(std::minmax(a, b).second));
		CHECK(sprout::minmax(a, b, q).first.same(std::minmax(a, b, q).first)); CHECK(sprout::minmax(a, b, q).second.same(std::minmax(a, b, q).second));
		CHECK(sprout::min({a, b, c, e}).same(std::min({a, b, c, e}))); CHECK(sprout::max({a, b, c, e}).same(std::max({a, b, c, e})));
		CHECK(sprout::min({a, b, c, e}, q).same(std::min({a, b, c, e}, q))); CHECK(sprout::max({a, b, c, e}, q).same(std::max({a, b, c, e}, q)));
		CHECK(sprout::min({a, b, c}).same(std::min({a, b, c}))); CHECK(sprout::max({c}).same(c));
		CHECK(sprout::minmax({a, b, c, e}).first.same(std::minmax({a, b, c, e}).first)); CHECK(sprout::minmax({a, b, c, e}).second.same(std::minmax({a, b, c, e}).second));
		CHECK(sprout::minmax({a, b, c}, q).first.same(std::minmax({a, b, c}, q).first)); CHECK(sprout::minmax({a, b, c}, q).second.same(std::minmax({a, b, c}, q).second));
		E lo = std::min(b, c), hi = std::max(b, c);
		E const& cl = sprout::clamp(a, lo, hi);
		CHECK(cl.same(a.key < lo.key ? lo : hi.key < a.key ? hi : a));
		E const& cq = q(b, c) ? sprout::clamp(a, b, c, q) : sprout::clamp(a, c, b, q);
		E const& ql = q(b, c) ? b : c; E const& qh = q(b, c) ? c : b;
		CHECK(cq.same(q(a, ql) ? ql : q(qh, a) ? qh : a));
		CHECK_EQ(sprout::abs_diff(a.key, b.key), std::abs(a.key - b.key));
		CHECK_EQ(sprout::abs_diff(unsigned(a.key + d), unsigned(b.key + d)), unsigned(std::abs(a.key - b.key)));
		CHECK_EQ(sprout::abs_diff(a.key, b.key, std::less<int>()), std::abs(a.key - b.key));
		CHECK_EQ(sprout::abs_diff(a.key, b.key, std::less<int>(), std::minus<int>()), std::abs(a.key - b.key));
	}
	PROP_INST(scalars, 10, scalars)

	struct Add { int operator()(int s, E const& e) const { return s * 3 + e.key; } };
	struct Big { int t; bool operator()(int s) const { return s > t || s < -t; } };
	template<class K> void folds(G& g) {
		std::vector<int> k = g.ints(12, -4, 5); In<K> a(k); a.note(g, "a");
		Big p = {g.pick({0, 3, 40, 1000, 100000})}; int init = g.irange(-2, 2);
		struct Not { Big b; bool operator()(int s) const { return !b(s); } } np = {p};
		int u = init; for (auto const& e : a.v) { if (p(u)) break; u = Add()(u, e); }
		CHECK_EQ(sprout::fold_until(a.b(), a.e(), init, Add(), p), u);
		CHECK_EQ(sprout::fold_while(a.b(), a.e(), init, Add(), np), u);
	}
	PROP_KINDS6(folds, 2)
}
