// Random number engines: sequences, seeding, discard, equality, streams, and the agreement of the mutating and the
// copying (const) interfaces, against Boost.Random (which Sprout's engines reproduce) and the standard library.
#include "pbt.hpp"
#include <sprout/random.hpp>
#include <sprout/random/range.hpp>
#include <sprout/random/seed_array.hpp>
#include <sprout/array.hpp>
#include <boost/random.hpp>
#include <random>
#include <sstream>
#include <list>
namespace {
	using pbt::G; namespace sr = sprout::random; namespace br = boost::random;
	typedef sr::linear_congruential_engine<uint32_t, 1664525, 1013904223, 0> sl32; typedef br::linear_congruential_engine<uint32_t, 1664525, 1013904223, 0> bl32;
	typedef sr::linear_congruential_engine<uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0> sl64; typedef br::linear_congruential_engine<uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0> bl64;
	typedef sr::linear_congruential_engine<uint32_t, 1366, 150889, 714025> sl7; typedef br::linear_congruential_engine<uint32_t, 1366, 150889, 714025> bl7;
	typedef sr::linear_congruential_engine<uint64_t, 0x5DEECE66Dull, 0xB, 1ull << 48> sl48; typedef br::linear_congruential_engine<uint64_t, 0x5DEECE66Dull, 0xB, 1ull << 48> bl48;
	typedef sr::linear_congruential_engine<uint16_t, 75, 74, 65521> sl16; typedef br::linear_congruential_engine<uint16_t, 75, 74, 65521> bl16;
	typedef sr::linear_congruential_engine<uint64_t, 48271, 11, 2147483647> sl31; typedef br::linear_congruential_engine<uint64_t, 48271, 11, 2147483647> bl31;
	typedef sr::inversive_congruential_engine<uint64_t, 9102, 2147483647 - 36884165, 2147483647> sinv; typedef br::inversive_congruential_engine<uint64_t, 9102, 2147483647 - 36884165, 2147483647> binv;
	typedef sr::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> slfs; typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> blfs;
	typedef sr::linear_feedback_shift_engine<uint64_t, 64, 63, 5, 24> slfs64; typedef br::linear_feedback_shift_engine<uint64_t, 64, 63, 5, 24> blfs64;
	typedef sr::shuffle_order_engine<sr::minstd_rand, 7> ssh7; typedef br::shuffle_order_engine<br::minstd_rand, 7> bsh7;
	typedef sr::shuffle_order_engine<sl7, 1> ssh1; typedef br::shuffle_order_engine<bl7, 1> bsh1;
	typedef sr::shuffle_order_engine<sr::linear_congruential_engine<std::uint_fast32_t, 1366, 150889, 714025>, 97> skr; typedef br::kreutzer1986 bkr;
	typedef sr::xor_combine_engine<slfs, 3, sl32, 1> sxor; typedef br::xor_combine_engine<blfs, 3, bl32, 1> bxor;

	template<class S> S const& c(S const& s) { return s; }
	// Boost additionally normalises the unused low bits of the first word of a freshly seeded twister: that word is not compared
	template<class S> struct first_word_free { static const bool value = false; };
	template<class U, std::size_t w, std::size_t n, std::size_t m, std::size_t r, U a, std::size_t u, U d, std::size_t s, U b, std::size_t t, U cc, std::size_t l, U f> struct first_word_free<sr::mersenne_twister_engine<U, w, n, m, r, a, u, d, s, b, t, cc, l, f>> { static const bool value = true; };
	template<class S> std::string state_text(std::string t) { if (first_word_free<S>::value) t.erase(0, t.find(' ')); return t; }
	template<class S, class B> uint64_t seed(G& g) { uint64_t v = g.flag() ? g.draw(1000) : uint64_t(g.integer<uint64_t>()); v = uint64_t(typename S::result_type(v)) & uint64_t(typename B::result_type(~uint64_t(0))); g.note("seed", v); return v; }
	// N draws through the mutating interface, the copying one, and the reference
	template<class S, class B> void advance(G& g, S& s, B& b, unsigned n) {
		for (unsigned i = 0; i < n; ++i) {
			S const old(s); auto r = c(s)(); uint64_t w = uint64_t(b()); uint64_t v = uint64_t(s());
			if (v != w || uint64_t(r.result()) != w) CHECK_MSG(false, "draw " << i << ": mutating " << v << ", copying " << uint64_t(r.result()) << ", expected " << w);
			CHECK(r.next() == s); CHECK(r.engine() == s); CHECK(uint64_t(sr::result(r)) == w); CHECK(sr::next(r) == s); CHECK(uint64_t(*r) == w);
			CHECK(v >= uint64_t(s.min()) && v <= uint64_t(s.max())); if (n < 40) { CHECK((old != s) == !(old == s)); auto q = c(old)(); CHECK(q == r); }
		}
		(void)g;
	}
	template<class S, class B, unsigned MaxN> void sequence(G& g) {
		uint64_t sd = seed<S, B>(g); unsigned n = unsigned(g.size(MaxN)); g.note("n", n); g.nontrivial(n > 1);
		S s((typename S::result_type)sd); B b((typename B::result_type)sd); if (g.chance(1, 6)) { s = S(); b = B(); }
		CHECK_EQ(uint64_t(s.min()), uint64_t(b.min())); CHECK_EQ(uint64_t(s.max()), uint64_t(b.max()));
		S const start(s); advance(g, s, b, n); S t(start); for (unsigned i = 0; i < n; ++i) t(); CHECK(t == s); CHECK(!(t != s));
		// text: the same as the reference, and it restores an equal engine
		std::ostringstream o, p; o << s; p << b; CHECK_EQ(state_text<S>(o.str()), state_text<S>(p.str())); S u; std::istringstream i(o.str()); i >> u; CHECK(!i.fail()); CHECK(u == s); CHECK(s == u);
		std::wostringstream wo; wo << s; std::wistringstream wi(wo.str()); S w; wi >> w; CHECK(!wi.fail()); CHECK(w == s);
		advance(g, u, b, unsigned(g.size(MaxN / 4 + 1)));
		unsigned a1 = unsigned(g.draw(8)), a2 = unsigned(g.draw(8)); S x(start), y(start); for (unsigned k = 0; k < a1; ++k) x(); for (unsigned k = 0; k < a2; ++k) y(); B bx(sd), by(sd); (void)bx; (void)by;
		std::ostringstream ox, oy; ox << x; oy << y; CHECK_EQ(x == y, ox.str() == oy.str()); if (a1 == a2) CHECK(x == y);
		// an engine put together from the leading parts of one state and the trailing parts of another equals neither, unless their texts do
		{ std::vector<std::string> px, py; { std::istringstream ix(ox.str()), iy(oy.str()); std::string w; while (ix >> w) px.push_back(w); while (iy >> w) py.push_back(w); }
		  if (px.size() > 1 && px.size() == py.size() && px.size() < 300) { std::size_t cut = 1 + g.draw(px.size() - 1); std::string z; for (std::size_t k = 0; k < px.size(); ++k) z += (k < cut ? px[k] : py[k]) + " "; S e; std::istringstream iz(z); iz >> e; if (!iz.fail()) { std::ostringstream oe; oe << e; CHECK_EQ(e == x, oe.str() == ox.str()); CHECK_EQ(y == e, oe.str() == oy.str()); CHECK_EQ(e != y, oe.str() != oy.str()); } } }
	}
#define SEQ(n, S, B, N, w) PROP_INST(seq_##n, w, sequence<S, B, N>)
	SEQ(minstd0, sr::minstd_rand0, br::minstd_rand0, 60, 1) SEQ(minstd, sr::minstd_rand, br::minstd_rand, 60, 1) SEQ(rand48, sr::rand48, br::rand48, 60, 1) SEQ(ecuyer, sr::ecuyer1988, br::ecuyer1988, 60, 1)
	SEQ(hellekalek, sinv, binv, 40, 1) SEQ(kreutzer, skr, bkr, 300, 0.3) SEQ(knuth, sr::knuth_b, br::knuth_b, 600, 0.15) SEQ(taus, sr::taus88, br::taus88, 60, 1) SEQ(l32, sl32, bl32, 60, 1) SEQ(l64, sl64, bl64, 60, 1) SEQ(l7, sl7, bl7, 60, 1)
	SEQ(l48, sl48, bl48, 60, 1) SEQ(l16, sl16, bl16, 60, 1) SEQ(l31, sl31, bl31, 60, 1) SEQ(lfs, slfs, blfs, 60, 1) SEQ(lfs64, slfs64, blfs64, 60, 1) SEQ(sh7, ssh7, bsh7, 60, 1) SEQ(sh1, ssh1, bsh1, 60, 1) SEQ(xorc, sxor, bxor, 60, 1)
	SEQ(mt11213b, sr::mt11213b, br::mt11213b, 900, 0.02) SEQ(mt19937, sr::mt19937, br::mt19937, 1500, 0.01) SEQ(mt64, sr::mt19937_64, br::mt19937_64, 800, 0.02)
	// long histories of the twister by the mutating interface only
	template<class S, class B> void twister(G& g) {
		uint64_t sd = seed<S, B>(g); S s((typename S::result_type)sd); B b((typename B::result_type)sd); unsigned n = unsigned(g.draw(4000)); g.note("n", n); g.nontrivial(n > 700);
		for (unsigned i = 0; i < n; ++i) { uint64_t v = s(), w = b(); if (v != w) CHECK_MSG(false, "draw " << i << ": " << v << " expected " << w); }
		S t(s); unsigned k = unsigned(g.draw(700)); for (unsigned i = 0; i < k; ++i) t(); CHECK_EQ(t == s, k == 0); CHECK_EQ(s != t, k != 0);
		std::ostringstream o, p; o << s; p << b; CHECK(state_text<S>(o.str()) == state_text<S>(p.str())); S u; std::istringstream i(o.str()); i >> u; CHECK(!i.fail()); CHECK(u == s); CHECK(s == u); for (unsigned j = 0; j < k; ++j) { u(); } CHECK(u == t); CHECK(t == u); u(); if (g.flag()) CHECK(u != t); else CHECK(t != u);
	}
	PROP_INST(twister_11213b, 0.3, twister<sr::mt11213b, br::mt11213b>) PROP_INST(twister_19937, 0.3, twister<sr::mt19937, br::mt19937>) PROP_INST(twister_64, 0.3, twister<sr::mt19937_64, br::mt19937_64>)
	// discard equals that many draws, and the reference for distances that cannot be stepped
	template<class S, class B> void discard(G& g) {
		uint64_t sd = seed<S, B>(g), z = g.flag() ? g.draw(100) : g.integer<uint64_t>(); g.note("z", z); g.nontrivial(z > 1); S s((typename S::result_type)sd); B b((typename B::result_type)sd); S const t(s); S u(s);
		b.discard(z); S d = t.discard(z); u.discard(z); CHECK(d == u); if (z < 100) { for (uint64_t i = 0; i < z; ++i) s(); CHECK(s == u); } uint64_t w = b(); CHECK_EQ(uint64_t(u()), w); CHECK_EQ(uint64_t(c(d)().result()), w);
	}
#define DISC(n, S, B) PROP_INST(discard_##n, 2, discard<S, B>)
	DISC(minstd0, sr::minstd_rand0, br::minstd_rand0) DISC(minstd, sr::minstd_rand, br::minstd_rand) DISC(l32, sl32, bl32) DISC(l64, sl64, bl64) DISC(l7, sl7, bl7) DISC(l48, sl48, bl48) DISC(l31, sl31, bl31)
	// re-seeding and seeding from a range or a seed sequence
	template<class S, class B> void reseed(G& g) {
		uint64_t sd = seed<S, B>(g), se = g.integer<uint32_t>(); S s((typename S::result_type)se); B b((typename B::result_type)se); for (unsigned i = 0, n = unsigned(g.draw(5)); i < n; ++i) s();
		S f(s); g.nontrivial(); s.seed((typename S::result_type)sd); b.seed((typename B::result_type)sd); CHECK(s == S((typename S::result_type)sd)); advance(g, s, b, 5); s.seed(); CHECK(s == S());
		std::vector<uint32_t> v(8); for (auto& x : v) x = g.integer<uint32_t>(); g.note("words", v); std::vector<uint32_t>::iterator p = v.begin(), q = v.begin(); B bb(p, v.end()); S ss(v.begin(), v.end()); S st(ss); advance(g, st, bb, 3); f.seed(v.begin(), v.end()); CHECK(f == ss);
		(void)q; std::list<uint32_t> l(v.begin(), v.end()); CHECK(S(l.begin(), l.end()) == ss);
		br::seed_seq bq(v.begin(), v.end()); sr::seed_array<8> sq(v.begin(), v.end()); S m(sq), k(static_cast<sr::seed_array<8> const&>(sq)); B mb(bq); CHECK(m == k); f.seed(sq); CHECK(f == m); f.seed(static_cast<sr::seed_array<8> const&>(sq)); CHECK(f == m); advance(g, m, mb, 3);
	}
#define RES(n, S, B) PROP_INST(reseed_##n, 0.5, reseed<S, B>)
	RES(minstd0, sr::minstd_rand0, br::minstd_rand0) RES(minstd, sr::minstd_rand, br::minstd_rand) RES(l32, sl32, bl32) RES(l7, sl7, bl7) RES(l48, sl48, bl48) RES(inv, sinv, binv) RES(lfs, slfs, blfs)
	RES(l64, sl64, bl64) RES(l31, sl31, bl31) RES(sh7, ssh7, bsh7) 
	// a range too short to seed from
	PROP(short_range, 0.3) { std::vector<uint32_t> v; CHECK_THROWS(std::invalid_argument, sl32(v.begin(), v.end())); sl48 e; std::vector<uint32_t> w(g.draw(2)); for (auto& x : w) x = g.integer<uint32_t>(); g.note("w", w); g.nontrivial(w.size() > 0); CHECK_THROWS(std::invalid_argument, e.seed(w.begin(), w.end())); CHECK(e == sl48()); }
	// text that is no state of the engine is refused and changes nothing
	template<class S> void bad_text(G& g) {
		S s((typename S::result_type)g.draw(1000)); S const old(s); uint64_t lo = S::static_min(), hi = S::static_max(), v = g.integer<uint64_t>(); if (g.flag()) v = hi + g.draw(3); std::istringstream i(g.chance(1, 5) ? std::string("x") : std::to_string(v)); g.note("v", v); bool ok = i.str() != "x" && v >= lo && v <= hi && v <= uint64_t(std::numeric_limits<typename S::result_type>::max()); g.nontrivial(!ok);
		i >> s; CHECK_EQ(!i.fail(), ok); if (!ok) CHECK(s == old); else { std::ostringstream o; o << s; CHECK_EQ(o.str(), std::to_string(v)); }
	}
	PROP_INST(bad_minstd, 1, bad_text<sr::minstd_rand>) PROP_INST(bad_l7, 1, bad_text<sl7>) PROP_INST(bad_inv, 1, bad_text<sinv>)
	// seed_array: the standard's seed sequence
	template<size_t N, size_t M> void seedseq(G& g) {
		std::vector<uint32_t> v(N); for (auto& x : v) x = g.integer<uint32_t>(); g.note("v", v); g.nontrivial(N > 0); std::seed_seq r(v.begin(), v.end()); sr::seed_array<N> s(v.begin(), v.end()); uint32_t a[M + 1] = {}, b[M + 1] = {}; r.generate(a, a + M); s.generate(b, b + M); for (size_t i = 0; i < M; ++i) CHECK_EQ(b[i], a[i]);
		auto q = s.generate(sprout::array<uint32_t, M>()); for (size_t i = 0; i < M; ++i) CHECK_EQ(q[i], a[i]); auto t = s.template generate<sprout::array<uint32_t, M> >(); CHECK(t == q); CHECK_EQ(s.size(), N); std::vector<uint32_t> w(N); s.param(w.begin()); CHECK(w == v); auto pa = s.template param<sprout::array<uint32_t, N> >(); CHECK(std::vector<uint32_t>(pa.begin(), pa.end()) == v);
	}
	PROP_INST(seed_1_1, 0.5, seedseq<1, 1>) PROP_INST(seed_3_4, 0.5, seedseq<3, 4>) PROP_INST(seed_8_5, 0.5, seedseq<8, 5>) PROP_INST(seed_5_12, 0.3, seedseq<5, 12>) PROP_INST(seed_2_45, 0.1, seedseq<2, 45>) PROP_INST(seed_4_2, 0.3, seedseq<4, 2>) PROP_INST(seed_9_80, 0.03, seedseq<9, 80>)
	// generate_array, iterators and ranges over an engine give its sequence
	template<class S> void views(G& g) {
		S s((typename S::result_type)seed<S, S>(g)); S const k(s); typedef typename S::result_type R; std::vector<R> w; S t(s); for (int i = 0; i < 9; ++i) w.push_back(t()); g.nontrivial();
		auto p = sr::generate_array<9>(k); CHECK(std::vector<R>(p.first.begin(), p.first.end()) == w); CHECK(p.second == t); S u(s); auto a = sr::generate_array<9>(u); CHECK(a == p.first); CHECK(u == t);
		size_t n = size_t(g.draw(10)); g.note("n", n); std::vector<R> h(w.begin(), w.begin() + long(n)); auto b = sr::begin(k, long(n)); auto e = sr::end(k); std::vector<R> x; for (auto i = b; i != e; ++i) x.push_back(*i); CHECK(x == h);
		auto mr = sr::make_range(k, long(n)); x.assign(mr.begin(), mr.end()); CHECK(x == h);
		auto r = k(); for (int i = 0; i < 9; ++i) { CHECK(r.result() == w[size_t(i)]); CHECK(R(r) == w[size_t(i)]); CHECK(sr::result(r) == w[size_t(i)]); if (g.flag()) r = r(); else if (g.flag()) ++r; else { auto z = r++; CHECK(*z == w[size_t(i)]); } } CHECK(r.min() == s.min()); CHECK(r.max() == s.max());
		auto q1 = k(), q2 = k()(); auto c1 = q1, c2 = q2; using std::swap; swap(c1, c2); CHECK(c1 == q2 && c2 == q1); c1.swap(c2); CHECK(c1 == q1);
	}
	PROP_INST(views_minstd, 0.5, views<sr::minstd_rand>) PROP_INST(views_taus, 0.5, views<sr::taus88>) PROP_INST(views_ecuyer, 0.5, views<sr::ecuyer1988>) PROP_INST(views_sh7, 0.5, views<ssh7>)
	// the standard's tenthousandth values and its own engines
	PROP(std_engines, 0.3) { uint32_t sd = g.integer<uint32_t>(); g.note("seed", sd); g.nontrivial(); std::minstd_rand0 a(sd); std::minstd_rand b(sd); std::mt19937 m(sd); std::knuth_b k(sd); std::mt19937_64 n(sd); sr::minstd_rand0 sa(sd); sr::minstd_rand sb(sd); sr::mt19937 sm(sd); sr::knuth_b sk(sd); sr::mt19937_64 sn(sd);
		for (int i = 0; i < 50; ++i) { CHECK_EQ(uint64_t(sa()), uint64_t(a())); CHECK_EQ(uint64_t(sb()), uint64_t(b())); CHECK_EQ(uint64_t(sm()), uint64_t(m())); CHECK_EQ(uint64_t(sk()), uint64_t(k())); CHECK_EQ(uint64_t(sn()), uint64_t(n())); } }
}
