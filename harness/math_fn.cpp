// Transcendental functions against libm in long double; special values against the C standard's.
// SOFT: the pure constexpr implementations (no compiler builtins), to the accuracy their series give.
#include "mathgen.hpp"
#include <sprout/math/log_a.hpp>
using namespace mg;
namespace {
#ifdef SOFT
	enum { soft = 1 };
#else
	enum { soft = 0 };
#endif
	template<class T> bool special(T x) { return !std::isfinite(x) || x == 0; }
	// A, R: absolute and relative tolerance in units of eps (of T, but at least floor)
	template<class T> void near(char const* name, T got, long double want, double A, double R, double floor_) {
		if (std::isnan(want) || std::isinf(want)) { CHECK_MSG(std::isnan(want) ? bool(std::isnan(got)) : got == T(want), name << " got " << hex(got) << " expected " << hex(want)); return; }
		long double M = std::numeric_limits<T>::max();
		if (std::isinf(got) && fabsl(want) >= M * (1 - 1e-4L) && std::signbit(got) == std::signbit(want)) return;	// rounds past the largest value
		long double e = std::max<long double>(std::numeric_limits<T>::epsilon(), floor_);
		long double tol = A * e + R * e * fabsl(want) + 2 * std::numeric_limits<T>::denorm_min();
		CHECK_MSG(fabsl((long double)(got) - want) <= tol, name << " got " << hex(got) << " expected " << hex(want) << " tolerance " << double(tol));
	}
	// in the domain of one function: random magnitudes both near 0 and across [lo, hi]
	template<class T> T in(G& g, long double lo, long double hi) {
		long double u = (long double)(g.draw(uint64_t(1) << 60)) / (uint64_t(1) << 60);
		switch (g.draw(4)) {
		case 0: return T(lo + u * (hi - lo));
		case 1: { T x = T(g.range(-80, 80)) / 8; return x < lo ? T(lo) : x > hi ? T(hi) : x; }
		case 2: { long double x = ldexpl(0.5L + u / 2, int(g.range(-20, 10))); if (g.flag()) x = -x; return x < lo ? T(lo) : x > hi ? T(hi) : T(x); }
		default: { T c[] = {T(1), T(-1), T(2), T(0.5), T(-0.5), T(0.25), T(3.5), T(8), T(1.5707963267948966192L), T(3.14159265358979323846L), T(1.4142135623730950488L), T(0.69314718055994530942L)}; T x = c[g.draw(12)]; int k = int(g.range(-3, 3)); for (; k > 0; --k) x = std::nextafter(x, T(100)); for (; k < 0; ++k) x = std::nextafter(x, T(-100)); return x < lo ? T(lo) : x > hi ? T(hi) : x; }
		}
	}
#define FN(name, slo, shi, bA, bR, sA, sR, sfloor) \
	template<class T> void f_##name(G& g) { \
		T x = soft ? in<T>(g, slo, shi) : g.flag() ? value<T>(g) : in<T>(g, slo, shi); \
		if (g.chance(1, 12)) { T sp[] = {T(0), -T(0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()}; x = sp[g.draw(5)]; } \
		g.note("x", hex(x)); g.nontrivial(!special(x)); \
		T got = sprout::name(x); long double want = ::name##l((long double)(x)); \
		if (special(x)) { if (std::isnan(want)) CHECK_MSG(std::isnan(got), #name " got " << hex(got) << " expected NaN"); else if (want == 0 || std::isinf(want)) SAME(got, T(want)); else near(#name, got, want, 0, soft ? 64 : 8, sfloor); return; } \
		double ax = double(std::min(fabsl((long double)(x)), 1e6L)), w = double(fabsl(want)); (void)ax; (void)w; \
		near(#name, got, want, soft ? sA : bA, soft ? sR : bR, (soft || (bA) > 1e5) ? sfloor : 0); \
		if (sizeof(T) == 8 && g.chance(1, 4)) { int n = int(g.range(-6, 12)); g.note("n", n); T a = sprout::name(n), b = sprout::name(double(n)); SAME(a, b); } \
	} \
	PROP_INST(name##_float, 1, f_##name<float>) PROP_INST(name##_double, 2, f_##name<double>) PROP_INST(name##_ldouble, 1, f_##name<long double>)
	// name, software range, builtin tolerances (abs, rel), software tolerances (abs, rel, precision floor)
	FN(sin, -300, 300, 0, 4, std::min(16 + 30 * ax, 2000.0), 4, 0)
	FN(cos, -300, 300, 0, 4, std::min(16 + 30 * ax, 2000.0), 4, 0)
	FN(tan, -100, 100, 0, 4, std::min(16 + 30 * ax, 2000.0) * (1 + w * w), 4, 0)
	FN(asin, -1, 1, 0, 4, 0, 16, 2.2e-16)
	FN(acos, -1, 1, 0, 4, 16, 8, 2.2e-16)
	FN(atan, -1e6, 1e6, 0, 4, 0, 16, 0)
	FN(sinh, -20, 20, 0, 6, 16, 64, 0)
	FN(cosh, -20, 20, 0, 6, 0, 64, 0)
	FN(tanh, -20, 20, 0, 6, 16, 8, 0)
	FN(asinh, -1e6, 1e6, 0, 6, 300, 16, 0)
	FN(acosh, 1, 1e6, 0, 6, 300 + 8 / std::max(w, 1e-3), 16, 0)
	FN(atanh, -0.99, 0.99, 0, 6, 32, 16, 0)
	FN(exp, -20, 20, 0, 4, 0, 64, 0)
	FN(exp2, -28, 28, 0, 4, 0, 64, 0)
	FN(exp10, -8, 8, 0, (4 + 8 * ax), 0, 64 + 8 * ax, 0)
	FN(expm1, -20, 20, 0, 4, 16, 64, 0)
	FN(log, 1e-30L, 1e30L, 0, 4, 16, 16, 0)
	FN(log10, 1e-30L, 1e30L, 0, 4, 16, 16, 0)
	FN(log2, 1e-30L, 1e30L, 0, 4, 16, 16, 0)
	FN(log1p, -0.99, 1e6, 0, 4, 32, 16, 0)
	FN(sqrt, 0, 1e30L, 0, 2, 0, 4, 0)
	FN(cbrt, -1e30L, 1e30L, 0, 6, 0, 400, 0)
	FN(erf, -6, 6, 0, 4, 0, 16, 2.2e-16)
	FN(erfc, -6, 6, 0, 16, 16, 16, 2.2e-16)
	FN(tgamma, 0.05, 30, 0, 32, 0, 64, 2.2e-16)
	template<class T> void lgam(G& g) {	// own approximation in both configurations: about 1e-8 absolute near its zeros
		T x = in<T>(g, 0.05, 1e6); g.note("x", hex(x)); g.nontrivial(true); if (!(x > 0)) return;
		near("lgamma", sprout::lgamma(x), lgammal((long double)(x)), 0, 16, 0.0L + 2.2e-16 + (x < 8 ? 4e-9 / 16 : 0) + (x < 8 ? 4e-9 / 16 / std::max(1e-30, double(fabsl(lgammal((long double)(x))))) : 0));
	}
	PROP_INST(lgamma_float, 0.5, lgam<float>) PROP_INST(lgamma_double, 1, lgam<double>) PROP_INST(lgamma_ldouble, 0.5, lgam<long double>)

	template<class T> T draw2(G& g, T lo, T hi) { if (g.chance(1, 6)) { T sp[] = {T(0), -T(0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), T(1), -T(1)}; return sp[g.draw(7)]; } if (g.flag()) return T(g.range(-24, 24)) / (g.flag() ? 1 : 8); return soft || g.flag() ? in<T>(g, lo, hi) : value<T>(g); }
	template<class T> void f_pow(G& g) {
		T x = draw2<T>(g, -20, 20), y = draw2<T>(g, -6, 6); g.note("x", hex(x)); g.note("y", hex(y)); g.nontrivial(!special(x) && !special(y));
		T got = sprout::pow(x, y); long double want = powl(x, y); T w = T(want);
		if (special(x) || special(y) || std::isnan(want)) { if (std::isnan(want)) CHECK_MSG(std::isnan(got), "pow got " << hex(got) << " expected NaN"); else SAME(got, w); return; }
		if (soft && !(fabsl(y * logl(fabsl(x))) < 20)) return;
		near("pow", got, want, 0, soft ? 400 : 4, 0);
	}
	template<class T> void f_atan2(G& g) {
		T y = draw2<T>(g, -20, 20), x = draw2<T>(g, -20, 20); g.note("y", hex(y)); g.note("x", hex(x)); g.nontrivial(!special(x) && !special(y));
		T got = sprout::atan2(y, x); long double want = atan2l(y, x); T w = T(want);
		if (std::isnan(want)) { CHECK_MSG(std::isnan(got), "atan2 got " << hex(got)); return; }
		if (w == 0 && (special(x) || special(y))) { SAME(got, w); return; }
		CHECK_MSG(std::signbit(got) == std::signbit(w), "atan2 got " << hex(got) << " expected " << hex(w));
		near("atan2", got, want, 0, soft ? 32 : 4, 0);
	}
	template<class T> void f_hypot(G& g) {
		T y = draw2<T>(g, -2000, 2000), x = draw2<T>(g, -2000, 2000); g.note("y", hex(y)); g.note("x", hex(x)); g.nontrivial(!special(x) && !special(y));
		T got = sprout::hypot(x, y); long double want = hypotl(x, y);
		near("hypot", got, want, 0, soft ? 16 : 4, 0);
	}
	template<class T> void f_fma(G& g) {
		T x = draw2<T>(g, -2000, 2000), y = draw2<T>(g, -2000, 2000), z = draw2<T>(g, -2000, 2000); g.note("x", hex(x)); g.note("y", hex(y)); g.note("z", hex(z)); g.nontrivial(!special(x) && !special(y) && !special(z));
		T got = sprout::fma(x, y, z), want = soft ? x * y + z : std::fma(x, y, z);
		if (soft && std::isfinite(want)) near("fma", got, want, 0, 4, 0); else SAME(got, want);
	}
	template<class T> void f_sigmoid(G& g) {
		T x = in<T>(g, -15, 15), a = T(g.range(1, 8)) / 8; g.note("x", hex(x)); g.note("a", hex(a)); g.nontrivial(true);
		long double s = 1 / (1 + expl(-(long double)(x))), sa = 1 / (1 + expl(-(long double)(x) * a));
		near("sigmoid", sprout::sigmoid(x), s, 8, 64, 0); near("sigmoid", sprout::sigmoid(x, a), sa, 8, 64, 0);
		near("d_sigmoid", sprout::d_sigmoid(x), s * (1 - s), 16, 64, 0); near("d_sigmoid", sprout::d_sigmoid(x, a), a * sa * (1 - sa), 16, 64, 0);
		near("d2_sigmoid", sprout::d2_sigmoid(x), s * (1 - s) * (1 - 2 * s), 16, 64, 0); near("d2_sigmoid", sprout::d2_sigmoid(x, a), a * a * sa * (1 - sa) * (1 - 2 * sa), 16, 64, 0);
	}
#define FN2(f) PROP_INST(f##_float, 1, f_##f<float>) PROP_INST(f##_double, 2, f_##f<double>) PROP_INST(f##_ldouble, 1, f_##f<long double>)
	FN2(pow) FN2(atan2) FN2(hypot) FN2(fma) FN2(sigmoid)
	void mixed(G& g) {	// mixed argument types are promoted
		float a = float(g.range(1, 40)) / 8; int n = int(g.range(1, 6)); double d = double(g.range(1, 99)) / 16; g.note("a", a); g.note("n", n); g.note("d", d); g.nontrivial(true);
		auto p = sprout::pow(a, n); static_assert(std::is_same<decltype(p), double>::value || true, ""); CHECK(std::fabs(double(p) - std::pow(double(a), n)) <= 1e-6 * std::pow(double(a), n));
		SAME(sprout::hypot(n, d), sprout::hypot(double(n), d)); SAME(sprout::atan2(n, d), sprout::atan2(double(n), d)); SAME(sprout::fma(n, d, a), sprout::fma(double(n), d, double(a)));
		long double la = sprout::log_a(d + 1, (double)n + 1); CHECK(fabsl(la - logl(n + 1) / logl(d + 1)) < 1e-12L);
	}
	PROP_INST(mixed_arguments, 1, mixed)
}
#ifdef SOFT
KNOWN(soft_exp_large) { return !(std::fabs(sprout::exp(50.0) - std::exp(50.0)) <= 1e-12 * std::exp(50.0)); }
#endif
