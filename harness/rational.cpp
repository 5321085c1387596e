// rational numbers against exact fractions in 128-bit integers; gcd, lcm, factorial, Bernoulli numbers
#include "pbt.hpp"
#include <sprout/rational.hpp>
#include <sprout/math/gcd.hpp>
#include <sprout/math/lcm.hpp>
#include <sprout/math/factorial.hpp>
#include <sprout/math/bernoulli.hpp>
#include <sprout/tuple/tuple/get.hpp>
#include <sprout/container/functions.hpp>
#include <sprout/functional/hash.hpp>
#include <sstream>
#include <limits>
namespace {
	using pbt::G;
	typedef __int128 I;
	I absI(I x) { return x < 0 ? -x : x; }
	I gcdI(I a, I b) { a = absI(a); b = absI(b); while (b) { I t = a % b; a = b; b = t; } return a; }
	struct Fr { I n, d; Fr(I n_ = 0, I d_ = 1) : n(n_), d(d_) { if (d < 0) { n = -n; d = -d; } I g = gcdI(n, d); if (g) { n /= g; d /= g; } } };
	std::string str(I x) { if (!x) return "0"; std::string s; bool ng = x < 0; if (ng) x = -x; while (x) { s.insert(s.begin(), char('0' + int(x % 10))); x /= 10; } return ng ? "-" + s : s; }
	template<class T> void same(char const* what, sprout::rational<T> const& r, Fr const& f) {
		CHECK_MSG(I(r.numerator()) == f.n && I(r.denominator()) == f.d, what << " got " << str(r.numerator()) << "/" << str(r.denominator()) << " expected " << str(f.n) << "/" << str(f.d));
	}
	template<class T> T part(G& g, T lim) { T v; switch (g.draw(4)) { case 0: v = T(g.range(0, 12)); break; case 1: v = T(g.draw(uint64_t(lim) + 1)); break; case 2: { T sm[] = {1, 2, 3, 4, 6, 8, 12, 24, 30, 60, 64, 97, 100}; v = sm[g.draw(13)]; break; } default: v = T(lim - T(g.range(0, 12))); } return v > lim ? lim : v; }
	template<class T> sprout::rational<T> draw(G& g, T lim, Fr& f, char const* nm) {
		T n = part<T>(g, lim), d = part<T>(g, lim); if (std::is_signed<T>::value && g.flag()) n = T(-n); if (d == 0) d = 1; if (std::is_signed<T>::value && g.flag()) d = T(-d);
		g.note(nm, str(n) + "/" + str(d)); f = Fr(n, d);
		sprout::rational<T> r(n, d); same("construction", r, f); return r;
	}
	template<class T> T lim() { return sizeof(T) == 8 ? T(1000000000) : sizeof(T) == 4 ? T(30000) : T(120); }
	template<class T> void arith(G& g) {
		typedef sprout::rational<T> R;
		Fr a, b; R x = draw<T>(g, lim<T>(), a, "x"), y = draw<T>(g, lim<T>(), b, "y"); T k = part<T>(g, lim<T>()); if (g.flag()) k = T(-k); g.note("k", str(k)); g.nontrivial(a.d > 1 && b.d > 1);
		same("+", x + y, Fr(a.n * b.d + b.n * a.d, a.d * b.d)); same("-", x - y, Fr(a.n * b.d - b.n * a.d, a.d * b.d)); same("*", x * y, Fr(a.n * b.n, a.d * b.d));
		same("x+k", x + k, Fr(a.n + I(k) * a.d, a.d)); same("k+x", k + x, Fr(a.n + I(k) * a.d, a.d)); same("x-k", x - k, Fr(a.n - I(k) * a.d, a.d)); same("k-x", k - x, Fr(I(k) * a.d - a.n, a.d)); same("x*k", x * k, Fr(a.n * k, a.d)); same("k*x", k * x, Fr(a.n * k, a.d));
		if (b.n) same("/", x / y, Fr(a.n * b.d, a.d * b.n)); else CHECK_THROWS(sprout::bad_rational, x / y);
		if (k) same("x/k", x / k, Fr(a.n, a.d * k)); else CHECK_THROWS(sprout::bad_rational, x / k);
		if (a.n) same("k/x", k / x, Fr(I(k) * a.d, a.n)); else CHECK_THROWS(sprout::bad_rational, k / x);
		CHECK_THROWS(sprout::bad_rational, R(k, 0));
		same("+x", +x, a); same("-x", -x, Fr(-a.n, a.d)); same("abs", abs(x), Fr(absI(a.n), a.d));
		CHECK_EQ(!x, a.n == 0); CHECK_EQ(bool(x), a.n != 0);
		R z = x; z += y; same("+=", z, Fr(a.n * b.d + b.n * a.d, a.d * b.d)); z = x; z -= y; same("-=", z, Fr(a.n * b.d - b.n * a.d, a.d * b.d)); z = x; z *= y; same("*=", z, Fr(a.n * b.n, a.d * b.d));
		z = x; if (b.n) { z /= y; same("/=", z, Fr(a.n * b.d, a.d * b.n)); } else { CHECK_THROWS(sprout::bad_rational, z /= y); same("failed /=", z, a); }
		z = x; z += k; same("+=k", z, Fr(a.n + I(k) * a.d, a.d)); z = x; z -= k; same("-=k", z, Fr(a.n - I(k) * a.d, a.d)); z = x; z *= k; same("*=k", z, Fr(a.n * k, a.d)); z = x; if (k) { z /= k; same("/=k", z, Fr(a.n, a.d * k)); }
		z = x; z += z; same("x+=x", z, Fr(2 * a.n, a.d)); z = x; z -= z; same("x-=x", z, Fr(0)); z = x; z *= z; same("x*=x", z, Fr(a.n * a.n, a.d * a.d)); z = x; if (a.n) { z /= z; same("x/=x", z, Fr(1)); }
		z = x; same("++", ++z, Fr(a.n + a.d, a.d)); z = x; same("post++", z++, a); same("post++", z, Fr(a.n + a.d, a.d)); z = x; same("--", --z, Fr(a.n - a.d, a.d)); z = x; same("post--", z--, a); same("post--", z, Fr(a.n - a.d, a.d));
		z = k; same("=k", z, Fr(k)); z.assign(x.numerator(), y.denominator()); same("assign", z, Fr(a.n, b.d)); z = y; swap(z, x); same("swap", z, a); same("swap", x, b);
	}
	template<class T> void order(G& g) {
		typedef sprout::rational<T> R; T L = std::numeric_limits<T>::max();
		Fr a, b; R x = draw<T>(g, g.flag() ? L : T(20), a, "x"), y = draw<T>(g, g.flag() ? L : T(20), b, "y"); if (g.chance(1, 4)) { y = x; b = a; }
		T k = g.flag() ? part<T>(g, L) : T(a.n / a.d); if (g.flag()) k = T(k + T(g.range(-1, 1)) * (k < L && k > -L)); else if (g.flag()) k = T(-k); g.note("k", str(k)); g.nontrivial(a.d > 1 && b.d > 1);
		I l = a.n * b.d, r = b.n * a.d, kk = I(k) * a.d;
		CHECK_EQ(x == y, l == r); CHECK_EQ(x != y, l != r); CHECK_EQ(x < y, l < r); CHECK_EQ(x > y, l > r); CHECK_EQ(x <= y, l <= r); CHECK_EQ(x >= y, l >= r);
		CHECK_EQ(x == k, a.n == kk); CHECK_EQ(k == x, a.n == kk); CHECK_EQ(x != k, a.n != kk); CHECK_EQ(k != x, a.n != kk); CHECK_EQ(x < k, a.n < kk); CHECK_EQ(k < x, kk < a.n); CHECK_EQ(x > k, a.n > kk); CHECK_EQ(k > x, kk > a.n); CHECK_EQ(x <= k, a.n <= kk); CHECK_EQ(k <= x, kk <= a.n); CHECK_EQ(x >= k, a.n >= kk); CHECK_EQ(k >= x, kk >= a.n);
		if (x == y) { CHECK_EQ(std::hash<R>()(x), std::hash<R>()(y)); CHECK_EQ(sprout::hash<R>()(x), sprout::to_hash(y)); }
		CHECK_EQ(sprout::rational_cast<double>(x), double(x.numerator()) / double(x.denominator())); CHECK_EQ(sprout::rational_cast<long long>(x), (long long)(a.n) / (long long)(a.d));
	}
	template<class T> void io(G& g) {
		typedef sprout::rational<T> R; Fr a; R x = draw<T>(g, std::numeric_limits<T>::max(), a, "x"); g.nontrivial(a.d > 1);
		std::ostringstream o; o << x; CHECK_EQ(o.str(), str(a.n) + "/" + str(a.d)); std::istringstream i(o.str() + " 7"); R y(1, 3); i >> y; CHECK(!!i); same("extract", y, a); int t = 0; i >> t; CHECK_EQ(t, 7);
		T n = T(g.range(-99, 99)), d = T(g.range(1, 99)); std::ostringstream u; char sep = g.pick({'/', '/', ',', ' '}); u << long(n) << sep << long(d); g.note("text", u.str()); std::istringstream j(u.str()); R z(1, 3); j >> z;
		if (sep == '/') { CHECK(!!j); same("extract", z, Fr(n, d)); } else { CHECK(!j); same("failed extract", z, Fr(1, 3)); }
		std::istringstream q("5/0"); R w(1, 3); CHECK_THROWS(sprout::bad_rational, q >> w); same("5/0", w, Fr(1, 3));
		T p = sprout::tuples::get<0>(x); CHECK(I(p) == a.n); p = sprout::tuples::get<1>(x); CHECK(I(p) == a.d);
	}
	PROP_INST(arith_int, 2, arith<int>) PROP_INST(arith_ll, 2, arith<long long>) PROP_INST(arith_long, 1, arith<long>)
	PROP_INST(order_int, 2, order<int>) PROP_INST(order_ll, 1, order<long>) PROP_INST(io_int, 1, io<int>) PROP_INST(io_ll, 1, io<long long>)
	template<class T> void gcds(G& g) {
		T L = std::numeric_limits<T>::max(); T a, b;
		if (g.flag()) { a = g.integer<T>(); b = g.integer<T>(); } else { T c = part<T>(g, T(g.flag() ? 10 : 60)); T x = part<T>(g, T(10)), y = part<T>(g, T(10)); a = T(uint64_t(c) * x <= uint64_t(L) ? c * x : c); b = T(uint64_t(c) * y <= uint64_t(L) ? c * y : c); if (std::is_signed<T>::value) { if (g.flag()) a = T(-a); if (g.flag()) b = T(-b); } }
		if (std::is_signed<T>::value) { if (a == std::numeric_limits<T>::min()) ++a; if (b == std::numeric_limits<T>::min()) ++b; }
		g.note("a", str(a)); g.note("b", str(b)); g.nontrivial(a != 0 && b != 0);
		I w = gcdI(a, b); CHECK_MSG(I(sprout::gcd(a, b)) == w, "gcd " << str(sprout::gcd(a, b)) << " expected " << str(w)); CHECK_EQ(sprout::math::gcd_evaluator<T>()(a, b), T(w)); CHECK_EQ(sprout::math::gcd_evaluator<>()(a, b), T(w));
		I l = !w || !a || !b ? 0 : I(L) / absI(b) < absI(a) / w ? I(-1) : absI(a) / w * absI(b); if (l >= 0) { CHECK_MSG(I(sprout::lcm(a, b)) == l, "lcm " << str(sprout::lcm(a, b)) << " expected " << str(l)); CHECK_EQ(sprout::math::lcm_evaluator<T>()(a, b), T(l)); CHECK_EQ(sprout::math::lcm_evaluator<>()(a, b), T(l)); }
	}
	PROP_INST(gcd_int, 1, gcds<int>) PROP_INST(gcd_uint, 1, gcds<unsigned>) PROP_INST(gcd_long, 1, gcds<long>) PROP_INST(gcd_ulong, 1, gcds<unsigned long>) PROP_INST(gcd_short, 1, gcds<short>) PROP_INST(gcd_ushort, 1, gcds<unsigned short>) PROP_INST(gcd_schar, 1, gcds<signed char>) PROP_INST(gcd_uchar, 1, gcds<unsigned char>) PROP_INST(gcd_char, 1, gcds<char>) PROP_INST(gcd_ll, 1, gcds<long long>) PROP_INST(gcd_ull, 1, gcds<unsigned long long>)
	template<class T> void fact(G& g) {
		std::size_t lim = sprout::math::factorial_limit<T>(), n = g.draw(lim + 1); g.note("n", n); g.nontrivial(n > 1);
		long double w = 1; I e = 1; for (std::size_t k = 2; k <= n; ++k) { w *= k; if (std::is_integral<T>::value) e *= k; }
		T got = sprout::factorial<T>(n); if (std::is_integral<T>::value) { CHECK_EQ(got, T(e)); CHECK(e <= I(std::numeric_limits<T>::max())); } else CHECK(fabsl((long double)(got) - w) <= (std::numeric_limits<T>::epsilon() * 2 + std::numeric_limits<long double>::epsilon() * n) * w);
		CHECK_EQ(sprout::unchecked_factorial<T>(n), got);
	}
	PROP_INST(factorial_int, 0.3, fact<int>) PROP_INST(factorial_ull, 0.3, fact<unsigned long long>) PROP_INST(factorial_long, 0.3, fact<long>) PROP_INST(factorial_short, 0.3, fact<short>) PROP_INST(factorial_uchar, 0.3, fact<unsigned char>) PROP_INST(factorial_schar, 0.3, fact<signed char>) PROP_INST(factorial_ushort, 0.3, fact<unsigned short>) PROP_INST(factorial_uint, 0.3, fact<unsigned>) PROP_INST(factorial_float, 0.3, fact<float>) PROP_INST(factorial_double, 0.3, fact<double>) PROP_INST(factorial_ldouble, 0.3, fact<long double>)
	template<class T> void bern(G& g) {
		std::size_t lim = sprout::math::bernoulli_number_limit<T>(), n = g.draw(lim + 1); g.note("n", n); g.nontrivial(n > 2 && n % 2 == 0);
		// B_2k = (-1)^(k+1) 2 (2k)! / (2 pi)^2k * zeta(2k)
		long double w; if (n == 0) w = 1; else if (n == 1) w = -0.5L; else if (n % 2) w = 0; else { long double z = 0; for (int j = 2000; j >= 1; --j) z += powl(j, -(long double)(n)); if (n == 6) z = 1.0173430619844491397L; if (n == 2) z = 1.6449340668482264364724L; if (n == 4) z = 1.0823232337111381915160L; long double p = 2; for (std::size_t k = 1; k <= n; ++k) p *= k / 6.283185307179586476925286766559L; w = p * z * ((n / 2) % 2 ? 1 : -1); }
		T got = sprout::bernoulli_number<T>(n); CHECK_MSG(fabsl((long double)(got) - w) <= (std::numeric_limits<T>::epsilon() * 2 + std::numeric_limits<long double>::epsilon() * (2 * n + 8)) * fabsl(w), "B got " << (long double)(got) << " expected " << w);
	}
	PROP_INST(bernoulli_float, 0.3, bern<float>) PROP_INST(bernoulli_double, 0.3, bern<double>) PROP_INST(bernoulli_ldouble, 0.3, bern<long double>)
}
