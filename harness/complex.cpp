// sprout::complex against std::complex<long double> (glibc), special values against Annex G as glibc gives them
#include "mathgen.hpp"
#include <complex>
#include <sstream>
#include <cstring>
#include <sprout/complex.hpp>
#include <sprout/tuple/tuple/get.hpp>
#include <sprout/functional/hash.hpp>
using namespace mg;
namespace {
	typedef std::complex<long double> L;
	template<class T> std::string sh(sprout::complex<T> const& z) { return "(" + hex(z.real()) + ", " + hex(z.imag()) + ")"; }
	std::string sh(L const& z) { return "(" + hex(z.real()) + ", " + hex(z.imag()) + ")"; }
	template<class T> T comp(G& g, T lim) {	// a finite component of moderate size
		switch (g.draw(5)) {
		case 0: return T(g.range(-16, 16)) / (g.flag() ? 1 : 4);
		case 1: return g.flag() ? T(0) : -T(0);
		case 2: { T x = std::ldexp(T(1 + g.draw(1u << 20)) / T(1u << 20), int(g.range(-12, 4))); if (x > lim) x = lim; return g.flag() ? x : -x; }
		case 3: { T c[] = {T(1), T(-1), T(0.5), T(-0.5), T(2), T(-2)}; return c[g.draw(6)]; }
		default: return T((long double)(g.draw(uint64_t(1) << 60)) / (uint64_t(1) << 60) * 2 * lim - lim);
		}
	}
	template<class T> T spec(G& g) { T c[] = {T(0), -T(0), T(1), T(-1), T(2.5), T(-2.5), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()}; return c[g.draw(9)]; }
	template<class T> sprout::complex<T> draw(G& g, T lim, char const* n) { T a = comp<T>(g, lim), b = comp<T>(g, lim); sprout::complex<T> z(a, b); g.note(n, sh(z)); return z; }
	template<class T> L up(sprout::complex<T> const& z) { return L(z.real(), z.imag()); }
	template<class T> void near(char const* what, sprout::complex<T> const& got, L const& want, long double tol) {
		long double t = tol * std::numeric_limits<T>::epsilon();
		CHECK_MSG(fabsl(got.real() - want.real()) <= t && fabsl(got.imag() - want.imag()) <= t, what << " got " << sh(got) << " expected " << sh(want) << " tolerance " << double(t));
	}
	template<class T> bool exact(sprout::complex<T> const& a, T re, T im) { return same(a.real(), re) && same(a.imag(), im); }
#define EX(e, re, im) do { auto z_ = (e); CHECK_MSG(exact(z_, decltype(z_.real() + 0)(re), decltype(z_.real() + 0)(im)), #e " got " << sh(z_)); } while (0)
	template<class T> void arith(G& g) {
		typedef sprout::complex<T> C;
		C x = draw<T>(g, 1000, "x"), y = draw<T>(g, 1000, "y"); T k = comp<T>(g, 100); g.note("k", hex(k)); g.nontrivial(x.imag() != 0 && y.imag() != 0);
		T a = x.real(), b = x.imag(), c = y.real(), d = y.imag();
		EX(x + y, a + c, b + d); EX(x - y, a - c, b - d); EX(x + k, a + k, b); EX(k + x, k + a, b); EX(x - k, a - k, b); EX(k - x, k - a, -b); EX(x * k, a * k, b * k); EX(k * x, k * a, k * b); EX(+x, a, b); EX(-x, -a, -b);
		long double m = std::abs(up(x)) * std::abs(up(y)); near("*", x * y, up(x) * up(y), 4 * m);
		if (y != T(0)) { long double q = std::abs(up(x)) / std::abs(up(y)); near("/", x / y, up(x) / up(y), 16 * q); near("k/", k / y, L(k) / up(y), 16 * std::fabs((long double)(k)) / std::abs(up(y))); C w = x; w /= y; near("/=", w, up(x) / up(y), 16 * q); }
		if (k != 0) { EX(x / k, a / k, b / k); C w = x; w /= k; EX(w, a / k, b / k); }
		C w = x; w += y; EX(w, a + c, b + d); w = x; w -= y; EX(w, a - c, b - d); w = x; w *= y; near("*=", w, up(x) * up(y), 4 * m); w = x; w += k; EX(w, a + k, b); w = x; w -= k; EX(w, a - k, b); w = x; w *= k; EX(w, a * k, b * k); w = k; EX(w, k, 0);
		w = x; w += w; EX(w, a + a, b + b); w = x; w *= w; near("x*=x", w, up(x) * up(x), 4 * std::norm(up(x))); w = x; w -= w; EX(w, a - a, b - b); if (x != T(0)) { w = x; w /= w; near("x/=x", w, L(1), 16); }
		CHECK_EQ(x == y, a == c && b == d); CHECK_EQ(x != y, a != c || b != d); CHECK_EQ(x == k, a == k && b == 0); CHECK_EQ(k == x, a == k && b == 0); CHECK_EQ(x != k, !(a == k && b == 0)); CHECK_EQ(k != x, !(a == k && b == 0)); C xc(x); CHECK(xc == x); CHECK_EQ(C(k) == k, true);
		if (x == y) { CHECK_EQ(std::hash<C>()(x), std::hash<C>()(y)); }
		EX(conj(x), a, -b); EX(perp(x), -b, a); SAME(real(x), a); SAME(imag(x), b); CHECK(fabsl(norm(x) - std::norm(up(x))) <= 4 * std::numeric_limits<T>::epsilon() * std::norm(up(x))); EX(ceil(x), std::ceil(a), std::ceil(b)); EX(floor(x), std::floor(a), std::floor(b)); EX(trunc(x), std::trunc(a), std::trunc(b)); EX(round(x), std::round(a), std::round(b)); EX(proj(x), a, b);
		EX(C(std::complex<T>(a, b)), a, b); std::complex<T> s = static_cast<std::complex<T> >(x); SAME(s.real(), a); SAME(s.imag(), b); EX(sprout::complex<long double>(x), a, b);
		w = x; w.real(k); EX(w, k, b); w.imag(c); EX(w, k, c); w.real() = a; w.imag() = d; EX(w, a, d);
		SAME(x[0], a); SAME(x[1], b); SAME(x.front(), a); SAME(x.back(), b); CHECK_EQ(x.size(), 2u); CHECK_EQ(x.end() - x.begin(), 2); CHECK_EQ(x.cend() - x.cbegin(), 2); CHECK_EQ(x.rend() - x.rbegin(), 2); SAME(*x.rbegin(), b); SAME(sprout::tuples::get<0>(x), a); SAME(sprout::tuples::get<1>(x), b);
		typedef sprout::complex<T> const K; K kx = x; CHECK_EQ(kx.cend() - kx.cbegin(), 2); CHECK_EQ(kx.crend() - kx.crbegin(), 2); CHECK_EQ(kx.end() - kx.begin(), 2);
	}
	template<class T> void io(G& g) {
		typedef sprout::complex<T> C; T a = T(g.range(-999, 999)) / 8, b = T(g.range(-999, 999)) / 8; C x(a, b); g.note("x", sh(x)); g.nontrivial(a != 0 && b != 0);
		std::ostringstream o, r; o << x; r << std::complex<T>(a, b); CHECK_EQ(o.str(), r.str());
		std::string t = g.pick({std::string("(1.5,2)"), std::string(" ( 1.5 , -2 ) 9"), std::string("(3)"), std::string("4.25"), std::string("(1.5;2)"), std::string("(1,2"), std::string("x"), std::string("")}); if (g.flag()) t = o.str() + " 5"; g.note("text", t);
		std::istringstream i(t), j(t); C y(7, 8); std::complex<T> z(7, 8); i >> y; j >> z; CHECK_EQ(!i, !j); if (j) { EX(y, z.real(), z.imag()); double u = 0, v = 0; i >> u; j >> v; CHECK_EQ(u, v); } else EX(y, 7, 8);
	}
	// condition: error of the real parts scales with the value and, near singular points, with 1/distance
	enum Kind { kPlain, kSpecial };
	template<class T, class F, class R> void fn(G& g, char const* name, T lim, F f, R ref, long double (*cond)(L const&, L const&)) {
		typedef sprout::complex<T> C; bool sp = g.chance(1, 4);
		C x; if (sp) { x = C(spec<T>(g), spec<T>(g)); g.note("x", sh(x)); } else x = draw<T>(g, lim, "x");
		g.nontrivial(x.real() != 0 && x.imag() != 0); g.label(sp ? "special" : "finite");
		C got = f(x); L want = ref(up(x));
		if (std::isfinite(x.real()) && std::isfinite(x.imag()) && std::isfinite(want.real()) && std::isfinite(want.imag())) {
			near(name, got, want, cond(up(x), want));
			C cj = f(conj(x)), gj = conj(got); near("conjugate symmetry", cj, L(gj.real(), gj.imag()), 2 * cond(up(x), want));
			return;
		}
		bool imt = !std::strcmp(name, "tanh"), ret = !std::strcmp(name, "tan");	// C17 revised these three from NaN + iNaN
		if ((imt && x.real() == 0 && !std::isfinite(x.imag())) || (ret && x.imag() == 0 && !std::isfinite(x.real())) || (!std::strcmp(name, "acosh") && x.real() == 0 && std::isnan(x.imag()))) { CHECK(std::isnan(got.real()) || std::isnan(got.imag())); return; }
		auto ok = [](T a, long double w, bool other_nan) { return std::isnan(w) ? bool(std::isnan(a)) : std::isinf(w) ? std::isinf(a) && (other_nan || std::signbit(a) == std::signbit(w)) : fabsl(a - w) <= 8 * std::numeric_limits<T>::epsilon() * fabsl(w); };
		CHECK_MSG(ok(got.real(), want.real(), std::isnan(want.imag())) && ok(got.imag(), want.imag(), std::isnan(want.real())), name << " got " << sh(got) << " expected " << sh(want));
	}
	long double m_(L const& z) { return std::abs(z); }
	long double inv(long double d) { return std::min(1e9L, 1 / std::max(d, 1e-9L)); }
	// worst-case growth of rounding error of the textbook formulas
	long double c_exp(L const& x, L const& w) { return 16 * (1 + m_(x)) * m_(w) + 1e-6L; }
	long double c_log(L const& x, L const& w) { return 16 + 8 * m_(w); }
	long double c_sqrt(L const&, L const& w) { return 16 * m_(w); }
	long double c_trig(L const& x, L const& w) { return 32 * (1 + m_(x)) * (1 + m_(w)); }
	long double c_tan(L const& x, L const& w) { return 64 * (1 + m_(x)) * (1 + std::norm(w)) * (1 + m_(w)); }
	long double c_inv(L const& x, L const& w) { long double d1 = m_(x - L(1)), d2 = m_(x + L(1)), d3 = m_(x - L(0, 1)), d4 = m_(x + L(0, 1)); return 64 * (1 + m_(w)) * (1 + std::norm(x)) * (1 + inv(std::min(std::min(d1, d2), std::min(d3, d4)))); }
#define CF(name, lim, refn, cond) template<class T> sprout::complex<T> w_##name(sprout::complex<T> const& z) { return sprout::name(z); } \
	L r_##name(L const& z) { __complex__ long double c; __real__ c = z.real(); __imag__ c = z.imag(); c = __builtin_##refn(c); return L(__real__ c, __imag__ c); } \
	template<class T> void f_##name(G& g) { fn<T>(g, #name, T(lim), w_##name<T>, r_##name, cond); } \
	PROP_INST(name##_float, 1, f_##name<float>) PROP_INST(name##_double, 2, f_##name<double>) PROP_INST(name##_ldouble, 1, f_##name<long double>)
	CF(exp, 12, cexpl, c_exp) CF(log, 1000, clogl, c_log) CF(sqrt, 1000, csqrtl, c_sqrt)
	CF(sin, 12, csinl, c_trig) CF(cos, 12, ccosl, c_trig) CF(tan, 12, ctanl, c_tan) CF(sinh, 12, csinhl, c_trig) CF(cosh, 12, ccoshl, c_trig) CF(tanh, 12, ctanhl, c_tan)
	CF(asin, 12, casinl, c_inv) CF(acos, 12, cacosl, c_inv) CF(atan, 12, catanl, c_inv) CF(asinh, 12, casinhl, c_inv) CF(acosh, 12, cacoshl, c_inv) CF(atanh, 12, catanhl, c_inv)
	bool moderate(long double m) { return m < 1e8L && m > 1e-8L; }
	template<class T> void misc(G& g) {
		typedef sprout::complex<T> C; C x = g.chance(1, 5) ? C(spec<T>(g), spec<T>(g)) : draw<T>(g, 1000, "x"); g.note("x", sh(x)); g.nontrivial(x.real() != 0 && x.imag() != 0); L u = up(x); T e = std::numeric_limits<T>::epsilon();
		auto cmp = [&](char const* n, T got, long double want) { CHECK_MSG(std::isnan(want) ? bool(std::isnan(got)) : std::isinf(want) ? got == T(want) : fabsl(got - want) <= 8 * e * fabsl(want), n << " got " << hex(got) << " expected " << hex(want)); };
		cmp("abs", abs(x), std::abs(u)); cmp("arg", arg(x), std::arg(u)); if (std::isfinite(x.real()) && std::isfinite(x.imag())) cmp("norm", norm(x), std::norm(u));
		L p = std::proj(u); C q = proj(x); CHECK_MSG((same(q.real(), T(p.real())) && same(q.imag(), T(p.imag()))), "proj got " << sh(q) << " expected " << sh(p));
		if (x != T(0) && std::isfinite(m_(u))) { C l2 = log2(x), l10 = log10(x); near("log2", l2, std::log(u) / 0.693147180559945309417232121458176568L, 32 + 8 * m_(std::log(u))); near("log10", l10, std::log10(u), 32 + 8 * m_(std::log(u))); C pl = sprout::polar(T(abs(x)), T(arg(x))); near("polar", pl, u, 64 * m_(u)); }
		T th = comp<T>(g, 10); g.note("theta", hex(th)); EX(sprout::euler(th), sprout::cos(th), sprout::sin(th));
		T k = T(g.range(-12, 12)) / (g.flag() ? 1 : 4); C y = draw<T>(g, 3, "y"); g.note("k", hex(k)); C b = draw<T>(g, 4, "b"); if (b != T(0)) { L lb = std::log(up(b)); long double gr = (1 + m_(lb) * (1 + m_(up(y)))) * 64; if (moderate(m_(std::exp(up(y) * lb)))) near("pow", pow(b, y), std::exp(up(y) * lb), gr * m_(std::exp(up(y) * lb)) + 1e-3L); L pk = std::exp((long double)(k) * lb); if (moderate(m_(pk))) near("pow(complex, real)", pow(b, k), pk, 64 * (1 + m_(lb) * (1 + fabsl(k))) * m_(pk) + 1e-3L); T s = b.real(); if (s != 0) { L ls = std::log(L(s)); L ps = std::exp(up(y) * ls); if (moderate(m_(ps))) near("pow(real, complex)", pow(s, y), ps, 64 * (1 + m_(ls) * (1 + m_(up(y)))) * m_(ps) + 1e-3L); } } else { EX(pow(b, C(T(2), T(1))), 0, 0); }
	}
	PROP_INST(arith_float, 2, arith<float>) PROP_INST(arith_double, 3, arith<double>) PROP_INST(arith_ldouble, 1, arith<long double>) PROP_INST(io_float, 0.5, io<float>) PROP_INST(io_double, 1, io<double>) PROP_INST(misc_float, 1, misc<float>) PROP_INST(misc_double, 2, misc<double>) PROP_INST(misc_ldouble, 1, misc<long double>)
}
