// Value-returning algorithms (sprout::fixed, sprout::fit) against the standard algorithms.
#include "iters.hpp"
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/random.hpp>
#include <algorithm>
using namespace ck;
using pbt::G;
namespace {
	std::vector<std::pair<int, int> > bag(std::vector<E> const& v) { std::vector<std::pair<int, int> > s; for (E const& e : v) s.push_back(std::make_pair(e.key, e.id)); std::sort(s.begin(), s.end()); return s; }
	std::vector<int> fixed_ints(G& g, size_t n, int lo, int hi) { std::vector<int> r; int w = g.irange(1, hi - lo); while (n--) r.push_back(lo + int(g.draw(uint64_t(w) + 1))); return r; }
	std::vector<int> keys(std::vector<E> const& v) { std::vector<int> r; for (E const& e : v) r.push_back(e.key); return r; }
	template<class R> std::vector<E> vec(R const& r) { std::vector<E> v; for (auto i = r.begin(); i != r.end(); ++i) v.push_back(*i); return v; }
	std::vector<E> overlay(std::vector<E> base, std::vector<E> const& out, bool fit) {
		size_t n = std::min(base.size(), out.size());
		for (size_t i = 0; i < n; ++i) base[i] = out[i];
		if (fit) base.resize(n);
		return base;
	}
	struct Twice { constexpr E operator()(E const& e) const { return E(e.key * 2, e.id); } };
	struct Sum { constexpr E operator()(E const& a, E const& b) const { return E((a.key * 2 + b.key) % 1000, a.id); } };
	struct Step { constexpr E operator()(E const& a) const { return E((a.key * 3 + 1) % 1000, a.id + 1); } };
	struct Count { int a, d, i; constexpr Count(int x, int y, int z) : a(x), d(y), i(z) {} constexpr sprout::pair<E, Count> operator()() const { return sprout::pair<E, Count>(E(a, i), Count(a + d, d, i + 1)); } };
	struct Unfolder { int d; constexpr explicit Unfolder(int x) : d(x) {} sprout::pair<E, std::pair<int, int> > operator()(std::pair<int, int> const& s) const { return sprout::pair<E, std::pair<int, int> >(E(s.first, s.second), std::make_pair(s.first + d, s.second + 1)); } };
	std::vector<E> input(G& g) { std::vector<E> v = elems(g.vec(14), 100); g.note("in", v); g.nontrivial(v.size() > 1); return v; }
	template<class I> I adv(I i, size_t n) { while (n--) ++i; return i; }

	template<class C> struct Box;
	template<size_t N> struct Box<sprout::array<E, N> > {
		sprout::array<E, N> c; std::vector<E> v;
		explicit Box(G& g) { v = elems(fixed_ints(g, N, -3, 5)); g.note("cont", v); set(); }
		Box(Box const&, std::vector<E> const& x) : v(x) { set(); }
		void set() { for (size_t i = 0; i < N; ++i) c[i] = v[i]; }
		typename sprout::array<E, N>::const_iterator it(size_t n) const { return c.begin() + n; }
		template<class R> void outside(R const&, bool, char const*) const {}
	};
	template<size_t N> struct Box<sprout::sub_array<sprout::array<E, N> > > {
		typedef sprout::sub_array<sprout::array<E, N> > type;
		sprout::array<E, N> a; size_t lo, hi; std::vector<E> v; type c;
		static sprout::array<E, N> arr(G& g) { sprout::array<E, N> r; std::vector<E> x = elems(fixed_ints(g, N, -3, 5)); g.note("cont", x); for (size_t i = 0; i < N; ++i) r[i] = x[i]; return r; }
		explicit Box(G& g) : a(arr(g)), lo(g.draw(N + 1)), hi(lo + g.draw(N + 1 - lo)), c(a, lo, hi) { g.note("lo", lo); g.note("hi", hi); v.assign(a.begin() + lo, a.begin() + hi); }
		Box(Box const& b, std::vector<E> const& x) : a(b.a), lo(b.lo), hi(b.hi), v(x), c((put(a, lo, x), a), lo, hi) {}
		static void put(sprout::array<E, N>& a, size_t lo, std::vector<E> const& x) { for (size_t i = 0; i < x.size(); ++i) a[lo + i] = x[i]; }
		typename type::const_iterator it(size_t n) const { return c.begin() + n; }
		template<class R> void outside(R const& r, bool fit, char const* what) const {	// what lies outside the window is kept
			if (fit) return;
			for (size_t i = 0; i < N; ++i) if (i < lo || i >= hi) CHECK_MSG(r.get_array()[i].same(a[i]), what << ": element " << i << " outside the window changed");
		}
	};
}
namespace h_fixed { namespace X = sprout::fixed; enum { FIT = 0 };
#include "alg_fixed.inc"
}
namespace h_fit { namespace X = sprout::fit; enum { FIT = 1 };
#include "alg_fixed.inc"
}
typedef sprout::array<E, 1> A1; typedef sprout::array<E, 3> A3; typedef sprout::array<E, 8> A8; typedef sprout::array<E, 13> A13; typedef sprout::sub_array<sprout::array<E, 10> > S10;
#ifndef PART
#define PART 0
#endif
#define BOTHNS(f, suffix, w, ...) PROP_INST(fixed_##f##suffix, w, (h_fixed::f<__VA_ARGS__>)) PROP_INST(fit_##f##suffix, w, (h_fit::f<__VA_ARGS__>))
#if PART == 0 || PART == 1
BOTHNS(copies, _8_ra, 1, A8, KRa) BOTHNS(copies, _8_fw, 1, A8, KFw) BOTHNS(copies, _s10_ptr, 1, S10, KPtr)
PROP_INST(fixed_copies_3_in, 1, (h_fixed::copies<A3, KIn>)) 
#endif
#if PART == 0 || PART == 2
BOTHNS(copies_fw, _3_ra, 1, A3, KRa) BOTHNS(copies_fw, _8_ptr, 1, A8, KPtr) BOTHNS(copies_fw, _8_fw, 1, A8, KFw) BOTHNS(copies_fw, _s10, 1, S10, KPtr)
BOTHNS(copies_bi, _3_ra, 1, A3, KRa) BOTHNS(copies_bi, _8_bi, 1, A8, KBi) BOTHNS(copies_bi, _8_ptr, 1, A8, KPtr) BOTHNS(copies_bi, _s10, 1, S10, KPtr)
BOTHNS(sets, _8_ra, 1, A8, KRa) BOTHNS(sets, _13_ptr, 1, A13, KPtr) BOTHNS(sets, _8_fw, 1, A8, KFw) BOTHNS(sets, _s10, 1, S10, KPtr)
#endif
#if PART == 0 || PART == 3
BOTHNS(whole, _1, 0.3, A1) BOTHNS(whole, _3, 1, A3) BOTHNS(whole, _8, 1, A8) BOTHNS(whole, _13, 1, A13) BOTHNS(whole, _s10, 1, S10)
#endif
#if PART == 0 || PART == 4
BOTHNS(order, _1, 0.3, A1) BOTHNS(order, _3, 1, A3) BOTHNS(order_gt, _8, 1, A8) BOTHNS(order, _13, 1, A13) BOTHNS(order, _s10, 1, S10)
BOTHNS(order_plain, _3, 1, A3) BOTHNS(order_plain, _8, 1, A8) BOTHNS(order_plain, _s10, 1, S10)
#endif
