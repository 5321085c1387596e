// Random distributions: the value drawn, the engine state left, the two interfaces, parameters, text and equality,
// against Boost.Random's distributions over the corresponding engines.
#include "pbt.hpp"
#include <sprout/random.hpp>
#include <sprout/random/generate_canonical.hpp>
#include <sprout/random/variate_generator.hpp>
#include <boost/random.hpp>
#include <boost/random/generate_canonical.hpp>
#include <cmath>
#include <sstream>
namespace {
	using pbt::G; namespace sr = sprout::random; namespace br = boost::random;
	typedef sr::linear_congruential_engine<uint32_t, 1366, 150889, 714025> sl7; typedef br::linear_congruential_engine<uint32_t, 1366, 150889, 714025> bl7;
	typedef sr::linear_congruential_engine<uint64_t, 0x5DEECE66Dull, 0xB, 1ull << 48> sl48; typedef br::linear_congruential_engine<uint64_t, 0x5DEECE66Dull, 0xB, 1ull << 48> bl48;
	typedef sr::linear_feedback_shift_engine<uint64_t, 64, 63, 5, 24> sl64; typedef br::linear_feedback_shift_engine<uint64_t, 64, 63, 5, 24> bl64;
	// an engine over a small range with a long period (its state is not its output)
	template<class R, unsigned Lo, unsigned Hi> struct tiny {
		typedef R result_type; uint64_t x; tiny() : x(1) {} explicit tiny(R s) : x(s) {} static R step(uint64_t& x) { x = x * 6364136223846793005ull + 1442695040888963407ull; return R(Lo + (x >> 33) % (Hi - Lo + 1)); }
		R min() const { return R(Lo); } R max() const { return R(Hi); } R operator()() { return step(x); } sr::random_result<tiny> operator()() const { tiny t(*this); R r = t(); return sr::random_result<tiny>(r, t); }
		friend bool operator==(tiny const& a, tiny const& b) { return a.x == b.x; } friend bool operator!=(tiny const& a, tiny const& b) { return a.x != b.x; } friend std::ostream& operator<<(std::ostream& o, tiny const& t) { return o << t.x; }
	};
	typedef tiny<uint32_t, 0, 15> s16; typedef s16 b16; typedef tiny<unsigned char, 3, 12> s10; typedef tiny<uint16_t, 0, 65535> s64k; typedef tiny<uint16_t, 5, 40000> w16;
	typedef sr::linear_congruential_engine<uint16_t, 75, 74, 65521> sw; typedef br::linear_congruential_engine<uint16_t, 75, 74, 65521> bw;
	template<class T> T const& c(T const& t) { return t; }

	// the reference for the normal distribution: the polar form over two uniform numbers
	template<class T> struct ref_normal {
		T mean, sigma, r1, r2, rho; bool valid; ref_normal(T m, T s) : mean(m), sigma(s), r1(0), r2(0), rho(0), valid(false) {}
		template<class E> T operator()(E& e) {
			if (!valid) { br::uniform_01<T> u; r1 = u(e); r2 = u(e); rho = std::sqrt(T(-2) * std::log(T(1) - r2)); valid = true; } else valid = false;
			T a = T(2) * T(3.14159265358979323846264338327950288L) * r1; return rho * (valid ? std::cos(a) : std::sin(a)) * sigma + mean;
		}
	};
	template<class T> bool same(T a, T b) { return std::is_floating_point<T>::value ? a == b || std::fabs((double)(a - b)) <= 8 * std::numeric_limits<T>::epsilon() * std::fabs((double)b) : a == b; }
	template<class T> bool near_normal(T a, T b, T mean, T sigma) { return std::fabs((double)(a - b)) <= 200 * std::numeric_limits<T>::epsilon() * (std::fabs((double)mean) + 9 * std::fabs((double)sigma)); }

	// n draws from one distribution: mutating, copying and by parameter; engine states compared by the engines
	template<class S, class B, class D, class R, class Eq> void draws(G& g, D d, R r, Eq eq, bool normal = false) {
		uint32_t sd = g.flag() ? uint32_t(g.draw(1000)) : g.integer<uint32_t>(); g.note("seed", sd); S s((typename S::result_type)sd); B b((typename B::result_type)(typename S::result_type)sd);
		unsigned n = unsigned(1 + g.size(12)); g.note("n", n); g.nontrivial(n > 1); typename D::param_type const p = d.param(); D const first(d); S const s0(s);
		for (unsigned i = 0; i < n; ++i) {
			S const old(s); D const od(d); S ps(old); auto w = r(b); auto v = d(s); auto q = c(od)(old);
			if (!eq(v, w)) CHECK_MSG(false, "draw " << i << ": mutating " << v << " expected " << w);
			if (!eq(q.result(), w)) CHECK_MSG(false, "draw " << i << ": copying " << q.result() << " expected " << w);
			CHECK_MSG(q.result() == v, "draw " << i << ": copying " << q.result() << " mutating " << v);
			CHECK(q.engine() == s); CHECK(q.distribution() == d);
			CHECK_MSG(v >= d.min() && v <= d.max(), "draw " << i << ": " << v << " outside [" << d.min() << ", " << d.max() << "]");
			if (!normal) { CHECK(d == od); auto pv = D()(ps, p); CHECK_EQ(pv, v); CHECK(ps == s); auto pq = c(D())(old, p); CHECK_EQ(pq.result(), v); CHECK(pq.engine() == s); }
			{ auto nn = c(q)(); S t(s); D e(d); auto v2 = e(t); CHECK_EQ(nn.result(), v2); CHECK(nn.engine() == t); }
		}
		{ std::ostringstream os; os << b; std::ostringstream ot; ot << s; CHECK_EQ(ot.str(), os.str()); }
		// the variate generators
		{ S e(s0); D x(first); auto gen = sr::combine(e, x); S f(s0); D y(first); auto val = gen(); auto w = y(f); CHECK_EQ(val.result(), w); CHECK(e == f); CHECK(x == y); CHECK(gen.engine() == f); CHECK(gen.min() == d.min() && gen.max() == d.max()); }
		{ S const e(s0); D const x(first); S f(s0); D y(first); auto w = y(f); auto cg = sr::ccombine(e, x); auto val = cg(); CHECK_EQ(val.result(), w); CHECK(val.engine() == f); CHECK(val.distribution() == y); auto cc = sr::combine_copy(e, x); auto u = c(cc)(); CHECK_EQ(u.result(), w); CHECK(u.engine() == f); CHECK(cc == sr::combine_copy(s0, first)); auto nv = c(cc).next_value(); CHECK_EQ(nv.result(), w); S h(s0); h(); auto cd = sr::combine_copy(h, first); CHECK_EQ(cc == cd, h == s0); CHECK_EQ(cc != cd, h != s0); auto ce = cc; swap(cc, cd); CHECK(cd == ce); CHECK(cc.engine() == h); }
	}
	struct exact { template<class A, class B> bool operator()(A a, B b) const { return same<typename std::common_type<A, B>::type>(a, b); } };
	// text: the same as the reference; parameters restored; a refused text changes nothing
	template<class D, class R> void text(G& g, D const& d, R const& r, D const& other, std::string const& bad, bool cmp = true) {
		std::ostringstream o, q; o.precision(20); q.precision(20); o << d; q << r; if (cmp) CHECK_EQ(o.str(), q.str()); D e(other); std::istringstream i(o.str()); i >> e; CHECK(!i.fail()); CHECK(e == d); CHECK(!(e != d)); { std::ostringstream oo; oo.precision(20); oo << other; bool eq = oo.str() == o.str(); CHECK_EQ(d == other, eq); CHECK_EQ(other == d, eq); CHECK_EQ(d != other, !eq); }
		CHECK_EQ(e == other, d == other); CHECK_EQ(e != other, d != other);
		typename D::param_type p = d.param(), p2 = other.param(); CHECK(p == d.param()); CHECK_EQ(p == p2, d == other); CHECK_EQ(p != p2, d != other); D f(p); CHECK(f == d); D h(other); h.param(p); CHECK(h == d); h.reset(); CHECK(h == d);
		std::ostringstream po; po.precision(20); po << p; CHECK_EQ(po.str(), o.str()); typename D::param_type pr(p2); std::istringstream pi(po.str()); pi >> pr; CHECK(!pi.fail()); CHECK(pr == p);
		std::wostringstream wo; wo.precision(20); wo << d; std::wistringstream wi(wo.str()); D w(other); wi >> w; CHECK(!wi.fail()); CHECK(w == d);
		(void)g; { std::istringstream bi(bad); D x(d); bi >> x; CHECK_MSG(bi.fail(), bad); CHECK(x == d); typename D::param_type px(p); std::istringstream bj(bad); bj >> px; CHECK(bj.fail()); CHECK(px == p); }
	}
	template<class I> void bounds(G& g, I& a, I& b) { a = g.integer<I>(); b = g.integer<I>(); if (g.chance(1, 3)) { a = I(g.irange(-20, 20)); b = g.chance(1, 3) ? I(a + I(g.pick({15, 255, 4095}))) : I(a + I(g.draw(40))); } if (std::is_unsigned<I>::value && g.chance(1, 4)) a = 0; if (a > b) std::swap(a, b); g.note("a", (long long)a); g.note("b", (unsigned long long)b); }

	template<class S, class B, class I> void small(G& g) { I a, b; bounds(g, a, b); sr::uniform_smallint<I> d(a, b); draws<S, B>(g, d, br::uniform_smallint<I>(a, b), exact()); CHECK(d.min() == a && d.max() == b && d.a() == a && d.b() == b); }
	// Boost forgets the minimum when the range is a power of the engine's: the reference draws from [0, b - a]
	template<class I> struct ref_int { typedef typename std::make_unsigned<I>::type U; I a, b; template<class E> I operator()(E& e) { return I(U(br::uniform_int_distribution<U>(0, U(U(b) - U(a)))(e) + U(a))); } };
	template<class S, class B, class I> void uint_(G& g) { I a, b; bounds(g, a, b); sr::uniform_int_distribution<I> d(a, b); draws<S, B>(g, d, ref_int<I>{a, b}, exact()); CHECK(d.min() == a && d.max() == b && d.a() == a && d.b() == b); }
#define INTS(D, F) \
	PROP_INST(D##_minstd_int, 1, F<sr::minstd_rand, br::minstd_rand, int>) PROP_INST(D##_l7_short, 1, F<sl7, bl7, short>) PROP_INST(D##_l7_long, 1, F<sl7, bl7, long>) PROP_INST(D##_taus_uint, 1, F<sr::taus88, br::taus88, unsigned>) PROP_INST(D##_taus_ulong, 1, F<sr::taus88, br::taus88, unsigned long>) \
	PROP_INST(D##_l48_long, 1, F<sl48, bl48, long>) PROP_INST(D##_l48_int, 1, F<sl48, bl48, int>) PROP_INST(D##_l64_long, 1, F<sl64, bl64, long>) PROP_INST(D##_l64_ushort, 1, F<sl64, bl64, unsigned short>) PROP_INST(D##_s16_int, 1, F<s16, b16, int>) PROP_INST(D##_s16_ull, 1, F<s16, b16, unsigned long long>) PROP_INST(D##_w16_int, 1, F<w16, w16, int>) PROP_INST(D##_s10_int, 1, F<s10, s10, int>) PROP_INST(D##_s10_short, 1, F<s10, s10, short>) PROP_INST(D##_s64k_long, 1, F<s64k, s64k, long>)
	INTS(small, small) INTS(uint, uint_)
	template<class S, class B, class T> void real(G& g) {
		T a = T(g.irange(-1000, 1000)) / T(1 + g.draw(64)), b = a + T(1 + g.draw(1 << 20)) / T(1 + g.draw(4096)); g.note("a", (double)a); g.note("b", (double)b); sr::uniform_real_distribution<T> d(a, b); draws<S, B>(g, d, br::uniform_real_distribution<T>(a, b), exact()); CHECK(d.a() == a && d.b() == b && d.min() == a && d.max() == b);
	}
	template<class S, class B, class T> void real01(G& g) { draws<S, B>(g, sr::uniform_01<T>(), br::uniform_01<T>(), exact()); CHECK(sr::uniform_01<T>().min() == 0 && sr::uniform_01<T>().max() == 1); CHECK(sr::uniform_01<T>() == sr::uniform_01<T>()); }
	template<class S, class B, class T> void bern(G& g) { T p = g.chance(1, 6) ? T(g.draw(2)) : T(g.draw(1001)) / T(1000); g.note("p", (double)p); sr::bernoulli_distribution<T> d(p); draws<S, B>(g, d, br::bernoulli_distribution<T>(p), exact()); CHECK(d.p() == p); CHECK(d.min() == false && d.max() == true); }
	template<class S, class B, class T> void geom(G& g) { T p = T(1 + g.draw(999)) / T(1001); if (g.chance(1, 4)) p /= 1000; g.note("p", (double)p); sr::geometric_distribution<int, T> d(p); draws<S, B>(g, d, br::geometric_distribution<int, T>(p), exact()); CHECK_EQ(d.p(), p); CHECK(d.param().p() == p); }
	template<class S, class B, class T> void binom(G& g) { int t = g.flag() ? int(g.draw(40)) : int(g.draw(5000)); T p = g.chance(1, 8) ? T(g.draw(2)) : T(g.draw(1001)) / T(1000); g.note("t", t); g.note("p", (double)p); sr::binomial_distribution<int, T> d(t, p); draws<S, B>(g, d, br::binomial_distribution<int, T>(t, p), exact()); CHECK(d.t() == t && d.p() == p); g.label(std::min(p, 1 - p) * (t + 1) < 11 ? "inversion" : "rejection"); }
	template<class S, class B, class T> void poiss(G& g) { T m = g.flag() ? T(1 + g.draw(200)) / T(10) : T(1 + g.draw(40000)) / T(4); g.note("mean", (double)m); sr::poisson_distribution<int, T> d(m); draws<S, B>(g, d, br::poisson_distribution<int, T>(m), exact()); CHECK(d.mean() == m); g.label(m < 10 ? "inversion" : "rejection"); }
	struct normal_eq { double mean, sigma; template<class A> bool operator()(A a, A b) const { return near_normal<A>(a, b, A(mean), A(sigma)); } };
	template<class S, class B, class T> void norm(G& g) { T m = T(g.irange(-1000, 1000)) / T(8), s = T(g.draw(1000)) / T(16); if (g.chance(1, 8)) { m = 0; s = 1; } g.note("mean", (double)m); g.note("sigma", (double)s); sr::normal_distribution<T> d(m, s); draws<S, B>(g, d, ref_normal<T>(m, s), normal_eq{double(m), double(s)}, true); CHECK(d.mean() == m && d.sigma() == s && d.stddev() == s); }
#define REALS(D, F) PROP_INST(D##_minstd, 1, F<sr::minstd_rand, br::minstd_rand, double>) PROP_INST(D##_taus_f, 1, F<sr::taus88, br::taus88, float>) PROP_INST(D##_l48, 1, F<sl48, bl48, double>) PROP_INST(D##_l64_ld, 0.5, F<sl64, bl64, long double>) PROP_INST(D##_sw, 1, F<sw, bw, double>)
	REALS(real, real) REALS(real01, real01) REALS(bern, bern) REALS(geom, geom) REALS(binom, binom) REALS(poiss, poiss) REALS(norm, norm)
	// rejection of a rounded-up 1
	PROP_INST(real01_l64_f, 1, real01<sl64, bl64, float>) PROP_INST(real_l64_f, 1, real<sl64, bl64, float>)

	template<class S, class B, class T, size_t bits> void canon(G& g) { uint32_t sd = g.integer<uint32_t>(); g.note("seed", sd); g.nontrivial(); S s((typename S::result_type)sd); B b((typename B::result_type)(typename S::result_type)sd); for (int i = 0; i < 8; ++i) { T v = sr::generate_canonical<T, bits>(s), w = br::generate_canonical<T, bits>(b); if (!same(v, w)) CHECK_EQ((double)v, (double)w); CHECK(v >= 0 && v < 1); } std::ostringstream o, p; o << s; p << b; CHECK_EQ(o.str(), p.str()); }
	PROP_INST(canon_minstd_d, 1, canon<sr::minstd_rand, br::minstd_rand, double, 53>) PROP_INST(canon_l7_ld, 1, canon<sl7, bl7, long double, 64>) PROP_INST(canon_taus_f, 1, canon<sr::taus88, br::taus88, float, 24>) PROP_INST(canon_s16_d, 1, canon<s16, b16, double, 30>) PROP_INST(canon_l64_d, 1, canon<sl64, bl64, double, 53>) PROP_INST(canon_l64_f, 1, canon<sl64, bl64, float, 24>)

	template<class I> void text_int(G& g) { I a, b, a2, b2; bounds(g, a, b); bounds(g, a2, b2); switch (g.draw(4)) { case 0: if (a <= b2) a2 = a; break; case 1: if (a2 <= b) b2 = b; break; } g.nontrivial(a != b); std::string bad = g.pick({std::string("x"), std::string("1 x"), std::string(""), std::string("5"), std::string("9 8")}); g.note("bad", bad);
		text(g, sr::uniform_smallint<I>(a, b), br::uniform_smallint<I>(a, b), sr::uniform_smallint<I>(a2, b2), bad); text(g, sr::uniform_int_distribution<I>(a, b), br::uniform_int_distribution<I>(a, b), sr::uniform_int_distribution<I>(a2, b2), bad);
		sr::uniform_int_distribution<I> e; CHECK(e.a() == 0 && e.b() == std::numeric_limits<I>::max()); sr::uniform_smallint<I> f; CHECK(f.a() == 0 && f.b() == std::numeric_limits<I>::max()); sr::uniform_int_distribution<I> h(a); CHECK(h.a() == a && h.b() == std::numeric_limits<I>::max());
	}
	PROP_INST(text_int_, 1, text_int<int>) PROP_INST(text_long, 1, text_int<long>) PROP_INST(text_ushort, 1, text_int<unsigned short>)
	template<class T> void text_real(G& g) {
		T a = T(g.irange(-1000, 1000)) / T(8), b = a + T(1 + g.draw(1000)) / 16, a2 = T(g.irange(-9, 9)), b2 = a2 + 1; switch (g.draw(4)) { case 0: if (a < b2) a2 = a; break; case 1: if (a2 < b) b2 = b; break; } g.note("a", (double)a); g.note("b", (double)b); g.nontrivial();
		text(g, sr::uniform_real_distribution<T>(a, b), br::uniform_real_distribution<T>(a, b), sr::uniform_real_distribution<T>(a2, b2), g.pick({std::string("x"), std::string("1 x"), std::string(""), std::string("2 1")}));
		T p = T(1 + g.draw(999)) / T(1024), q = T(1 + g.draw(999)) / T(1024); g.note("p", (double)p); g.note("q", (double)q);
		text(g, sr::bernoulli_distribution<T>(p), br::bernoulli_distribution<T>(p), sr::bernoulli_distribution<T>(q), g.pick({std::string("x"), std::string("-0.1"), std::string("1.5")}));
		text(g, sr::geometric_distribution<int, T>(p), br::geometric_distribution<int, T>(p), sr::geometric_distribution<int, T>(q), g.pick({std::string("x"), std::string("0"), std::string("1"), std::string("-2")}));
		int t = int(g.draw(100)), u = g.chance(1, 3) ? t : int(g.draw(100)); if (g.chance(1, 3)) q = p; g.note("t", t); text(g, sr::binomial_distribution<int, T>(t, p), br::binomial_distribution<int, T>(t, p), sr::binomial_distribution<int, T>(u, q), g.pick({std::string("x"), std::string("1 x"), std::string("-1 0.5"), std::string("3 1.5"), std::string("3 -1")}), false /* Boost writes the two in the other order */);
		T m = T(1 + g.draw(1000)) / 16, k = T(1 + g.draw(1000)) / 16; g.note("m", (double)m); g.note("k", (double)k); text(g, sr::poisson_distribution<int, T>(m), br::poisson_distribution<int, T>(m), sr::poisson_distribution<int, T>(k), g.pick({std::string("x"), std::string("0"), std::string("-3")}));
		{ typedef sr::normal_distribution<T> N; T pm[2] = {a, a2}, ps[2] = {k, m}; int x = int(g.draw(4)), y = int(g.draw(4)); typename N::param_type p1(pm[x & 1], ps[x >> 1]), p2(pm[y & 1], ps[y >> 1]); bool eq = pm[x & 1] == pm[y & 1] && ps[x >> 1] == ps[y >> 1]; CHECK_EQ(p1 == p2, eq); CHECK_EQ(p1 != p2, !eq); CHECK_EQ(N(p1) == N(p2), eq); CHECK_EQ(N(p1) != N(p2), !eq);
		  std::ostringstream po; po.precision(25); po << p1; typename N::param_type p3(p2); std::istringstream pi(po.str()); pi >> p3; CHECK(!pi.fail()); CHECK(p3 == p1); CHECK(p3.mean() == pm[x & 1] && p3.sigma() == ps[x >> 1]); }
		// normal: its text restores the cached half as well
		sr::normal_distribution<T> d(a, k), e(a2, m); sr::minstd_rand s(unsigned(1 + g.draw(1000))); unsigned n = unsigned(g.draw(4)); g.note("n", n); for (unsigned i = 0; i < n; ++i) d(s); std::ostringstream o; o.precision(25); o << d; std::istringstream i(o.str()); i >> e; CHECK(!i.fail()); CHECK(e == d); CHECK(!(e != d)); sr::minstd_rand s2(s); for (int j = 0; j < 3; ++j) CHECK_EQ(e(s2), d(s)); CHECK(s == s2);
		d.reset(); sr::normal_distribution<T> f(d.param()); CHECK(f.param() == d.param()); sr::minstd_rand s3(s); CHECK_EQ(f(s3), d(s)); CHECK(s3 == s); for (std::string bad : {"x", "1 -1", "1 2", "1 2 1 x"}) { std::istringstream bi(bad); sr::normal_distribution<T> y(d); bi >> y; CHECK(bi.fail()); CHECK(y == d); }
		d.param(typename sr::normal_distribution<T>::param_type(a2, m)); CHECK(d.mean() == a2 && d.sigma() == m); sr::normal_distribution<T> z(a2, m); CHECK_EQ(d(s), z(s3)); CHECK(s == s3);
		sr::uniform_real_distribution<T> dr; CHECK(dr.a() == 0 && dr.b() == 1); CHECK(sr::bernoulli_distribution<T>().p() == T(0.5)); CHECK((sr::geometric_distribution<int, T>().param().p() == T(0.5))); CHECK((sr::binomial_distribution<int, T>().t() == 1 && sr::binomial_distribution<int, T>().p() == T(0.5))); CHECK((sr::poisson_distribution<int, T>().mean() == 1)); CHECK(sr::normal_distribution<T>().mean() == 0 && sr::normal_distribution<T>().sigma() == 1);
	}
	PROP_INST(text_double, 1, text_real<double>) PROP_INST(text_float, 1, text_real<float>)
}
