// Exactly specified floating-point functions (rounding, decomposition, remainders, classification, comparison) against libm.
#include "mathgen.hpp"
using namespace mg;
namespace {
#ifdef SOFT	// without compiler builtins: rounding is defined up to 2^64 only, decomposition for normal values
	enum { soft = 1 };
#else
	enum { soft = 0 };
#endif
	template<class T> bool fuzzy_eq(T x, T y) { return x == y || std::fabs(x - y) <= std::numeric_limits<T>::epsilon() * std::max(std::max(std::fabs(x), std::fabs(y)), T(1)); }
	template<class T> bool moderate(T x) { return x == 0 || !std::isfinite(x) || std::abs(std::ilogb(x)) < std::numeric_limits<typename std::conditional<sizeof(T) == 4, double, T>::type>::max_exponent - 3; }
	template<class T> bool small_(T x) { return std::fabs(x) < T(1.8e19) || !std::isfinite(x); }
	template<class T> T draw1(G& g) { T x = value<T>(g); g.note("x", hex(x)); g.nontrivial(std::isfinite(x) && x != 0); return x; }
	template<class T> void nearest(G& g) {
		T x = draw1<T>(g);
		if (soft && !small_(x)) return;
		SAME(sprout::floor(x), std::floor(x)); SAME(sprout::ceil(x), std::ceil(x)); SAME(sprout::trunc(x), std::trunc(x)); SAME(sprout::round(x), std::round(x));
		SAME(sprout::fabs(x), std::fabs(x)); SAME(sprout::abs(x), std::fabs(x));
		if (std::fabs(x) < T(2147483000.0)) {
			CHECK_EQ(sprout::ifloor(x), int(std::floor(x))); CHECK_EQ(sprout::iceil(x), int(std::ceil(x))); CHECK_EQ(sprout::itrunc(x), int(x)); CHECK_EQ(sprout::iround(x), int(std::round(x)));
		}
		if (std::fabs(x) < T(9e18)) {
			CHECK_EQ(sprout::lround(x), std::lround(x)); CHECK_EQ(sprout::llround(x), std::llround(x));
			CHECK_EQ(sprout::ifloor<long long>(x), (long long)(std::floor(x))); CHECK_EQ(sprout::iceil<long long>(x), (long long)(std::ceil(x))); CHECK_EQ(sprout::itrunc<long long>(x), (long long)(x)); CHECK_EQ(sprout::iround<long long>(x), std::llround(x));
		}
	}
	template<class T> void parts(G& g) {
		T x = draw1<T>(g); if (soft && (!small_(x) || std::fpclassify(x) == FP_SUBNORMAL)) return;
		T ip; T fp = std::modf(x, &ip); auto p = sprout::frac_int(x);
		SAME(p.first, fp); SAME(p.second, ip); SAME(sprout::fractional_part(x), fp); SAME(sprout::integer_part(x), ip);
		if (!std::isfinite(x) || std::fpclassify(x) == FP_SUBNORMAL) return;
		int e; T m = std::frexp(x, &e); auto q = sprout::float2_sig_exp(x);
		SAME(q.first, m); CHECK_EQ(q.second, e); SAME(sprout::float2_significand(x), m); CHECK_EQ(sprout::float2_exponent(x), e);
		auto r = sprout::float_sig_exp(x); SAME(r.first, m); CHECK_EQ(r.second, e); SAME(sprout::float_significand(x), m); CHECK_EQ(sprout::float_exponent(x), e);
	}
	template<class T> void exponents(G& g) {
		T x = draw1<T>(g);
		SAME(sprout::logb(x), std::logb(x)); SAME(sprout::logb2(x), std::logb(x));
		CHECK_EQ(sprout::ilogb(x), std::ilogb(x)); CHECK_EQ(sprout::ilogb2(x), std::ilogb(x));
		int n = g.chance(1, 8) ? int(g.range(-40000, 40000)) : int(g.range(-1100, 1100)); if (g.flag()) n %= 70; g.note("n", n); if (soft && std::abs(n) >= std::numeric_limits<typename std::conditional<sizeof(T) == 4, double, T>::type>::max_exponent) return;
		SAME(sprout::ldexp(x, n), std::ldexp(x, n)); SAME(sprout::scalbn(x, n), std::scalbn(x, n)); SAME(sprout::scalbln(x, long(n)), std::scalbln(x, long(n)));
	}
	template<class T> void remainders(G& g) {
		T x = draw1<T>(g), y = g.flag() ? value<T>(g) : T(g.range(-40, 40)) / 4; g.note("y", hex(y)); if (soft && !(moderate(x) && moderate(y))) return;
		SAME(sprout::fmod(x, y), std::fmod(x, y)); SAME(sprout::remainder(x, y), std::remainder(x, y));
		int q = 0; T r = std::remquo(x, y, &q); auto p = sprout::rem_quo(x, y); SAME(p.first, r);
		if (!std::isnan(r) && std::isfinite(y) && x != 0) { CHECK_EQ(p.second & 7, q & 7); CHECK(p.second == 0 || (p.second < 0) == (q < 0)); CHECK_EQ(sprout::quotient(x, y), p.second); }
	}
	template<class T> void binary(G& g) {
		T x = draw1<T>(g), y = g.chance(1, 4) ? x : value<T>(g); g.note("y", hex(y));
		SAME(sprout::copysign(x, y), std::copysign(x, y)); SAME(sprout::fdim(x, y), std::fdim(x, y));
		if (!(x == 0 && y == 0)) { SAME(sprout::fmax(x, y), std::fmax(x, y)); SAME(sprout::fmin(x, y), std::fmin(x, y)); }
		CHECK_EQ(sprout::isgreater(x, y), std::isgreater(x, y)); CHECK_EQ(sprout::isgreaterequal(x, y), std::isgreaterequal(x, y)); CHECK_EQ(sprout::isless(x, y), std::isless(x, y));
		CHECK_EQ(sprout::islessequal(x, y), std::islessequal(x, y)); CHECK_EQ(sprout::islessgreater(x, y), std::islessgreater(x, y)); CHECK_EQ(sprout::isunordered(x, y), std::isunordered(x, y));
		bool eq = fuzzy_eq(x, y);	// these compare with a tolerance of epsilon
		CHECK_EQ(sprout::math::equal_to(x, y), eq); CHECK_EQ(sprout::math::not_equal_to(x, y), !eq); CHECK_EQ(sprout::math::less(x, y), x < y && !eq); CHECK_EQ(sprout::math::greater(x, y), x > y && !eq); CHECK_EQ(sprout::math::less_equal(x, y), x < y || eq); CHECK_EQ(sprout::math::greater_equal(x, y), x > y || eq);
	}
	template<class T> void classify(G& g) {
		T x = draw1<T>(g);
		CHECK_EQ(sprout::fpclassify(x), std::fpclassify(x)); CHECK_EQ(sprout::isfinite(x), std::isfinite(x)); CHECK_EQ(sprout::isinf(x), std::isinf(x)); CHECK_EQ(sprout::isnan(x), std::isnan(x));
		CHECK_EQ(sprout::isnormal(x), std::isnormal(x)); CHECK_EQ(sprout::math::iszero(x), x == 0); CHECK_EQ((sprout::math::issubnormal)(x), std::fpclassify(x) == FP_SUBNORMAL); if (!std::isnan(x)) CHECK_EQ(sprout::signbit(x), std::signbit(x));
		if (std::isfinite(x) && !(soft && !small_(x))) { CHECK_EQ(sprout::math::is_integer(x), std::trunc(x) == x); CHECK_EQ(sprout::math::is_even(x), std::fmod(x, T(2)) == 0); CHECK_EQ(sprout::math::is_odd(x), std::fabs(std::fmod(x, T(2))) == 1); }
	}
	template<class T> void integers(G& g) {	// integer arguments are converted to double
		T n = g.template integer<T>(); double x = double(n); g.note("n", n); g.nontrivial(n != 0); if (soft && x > 1.8e19) return;
		SAME(sprout::floor(n), x); SAME(sprout::ceil(n), x); SAME(sprout::trunc(n), x); SAME(sprout::round(n), x); SAME(sprout::fabs(n), std::fabs(x));
		CHECK_EQ(sprout::isnan(n), false); CHECK_EQ(sprout::isfinite(n), true); CHECK_EQ(sprout::math::iszero(n), n == 0);
		T d = g.template integer<T>(); if (d == 0) d = 3; g.note("d", d); SAME(sprout::fmod(n, d), std::fmod(x, double(d))); SAME(sprout::copysign(n, d), std::copysign(x, double(d)));
		CHECK_EQ(sprout::math::less(n, d), n < d); CHECK_EQ(sprout::math::equal_to(n, d), n == d); CHECK_EQ(sprout::math::greater_equal(n, d), n >= d);
		long long s = g.chance(1, 4) ? (long long)(n) : g.integer<long long>(); g.note("s", s);
		__int128 a = n, b = s; CHECK_EQ(sprout::math::less(n, s), a < b); CHECK_EQ(sprout::math::greater(n, s), a > b); CHECK_EQ(sprout::math::equal_to(n, s), a == b); CHECK_EQ(sprout::math::not_equal_to(n, s), a != b); CHECK_EQ(sprout::math::less_equal(n, s), a <= b); CHECK_EQ(sprout::math::greater_equal(n, s), a >= b);
	}
}
#define T3(f, w) PROP_INST(f##_float, w, f<float>) PROP_INST(f##_double, w, f<double>) PROP_INST(f##_ldouble, w, f<long double>)
T3(nearest, 3) T3(parts, 3) T3(exponents, 3) T3(remainders, 3) T3(binary, 3) T3(classify, 3)
PROP_INST(integers_int, 2, integers<int>) PROP_INST(integers_ull, 2, integers<unsigned long long>) PROP_INST(integers_u32, 1, integers<unsigned>) PROP_INST(integers_s8, 1, integers<signed char>) PROP_INST(integers_ll, 1, integers<long long>)
