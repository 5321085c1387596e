// N01: text <-> number conversions
#include "pbt.hpp"
#include <sprout/string.hpp>
#include <sprout/cstdlib.hpp>
#include <sprout/cinttypes.hpp>
#include <cinttypes>
#include <memory>
using namespace pbt;
typedef unsigned __int128 u128;

// exact-size, terminated heap copy: reading past the terminator is a sanitizer error
template<typename C> struct Text {
	std::unique_ptr<C[]> p;
	explicit Text(std::string const& s) : p(new C[s.size() + 1]) { for (size_t i = 0; i < s.size(); ++i) p[i] = C((unsigned char)s[i] < 128 ? s[i] : C(s[i])); p[s.size()] = C(); }
	C const* get() const { return p.get(); }
};

static int digit(char c, int base) {
	int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
	return d < base ? d : -1;
}
// the C definition, for any integer width
template<typename T> T model(std::string const& s, int base) {
	size_t i = 0;
	while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i;
	bool neg = false;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
	if ((base == 0 || base == 16) && i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && digit(s[i + 2], 16) >= 0) { i += 2; base = 16; }
	else if (base == 0) base = i < s.size() && s[i] == '0' ? 8 : 10;
	u128 m = 0; u128 lim = u128(1) << 100;
	for (; i < s.size() && digit(s[i], base) >= 0; ++i) if (m < lim) m = m * base + digit(s[i], base);
	u128 mx = u128(std::numeric_limits<T>::max());
	if (std::is_signed<T>::value) {
		if (neg) return m > mx ? std::numeric_limits<T>::min() : T(-(__int128)m);
		return m > mx ? std::numeric_limits<T>::max() : T(m);
	}
	return m > mx ? std::numeric_limits<T>::max() : neg ? T(-m) : T(m);
}
static std::string render(u128 m, int base, bool upper) {
	std::string r;
	do { int d = int(m % base); r += char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); m /= base; } while (m);
	std::reverse(r.begin(), r.end());
	return r;
}
template<typename T> std::string int_text(G& g, int base) {
	std::string s = g.str<std::string>(3, " \t\n\v\f\r");
	switch (g.draw(3)) { case 1: s += '-'; break; case 2: s += '+'; }
	int b = base ? base : 10;
	switch (g.draw(5)) {
	case 0: { T v = g.integer<T>(); u128 m = v < 0 ? u128(-(__int128)v) : u128(v); s += render(m, b, g.flag()); break; }
	case 1: {	// around the limits
		u128 m = u128(std::numeric_limits<T>::max()) + u128(g.irange(-3, 3));
		if (g.chance(1, 4)) m = u128(std::numeric_limits<T>::max()) / b + u128(g.irange(-2, 2));
		s += render(m, b, g.flag()); break; }
	case 2: s += g.str<std::string>(24, "0123456789"); break;
	case 3: s += g.flag() ? "0x" : "0X"; s += g.str<std::string>(18, "0123456789abcdefABCDEFgG"); break;
	default: s += g.str<std::string>(22, "019azAZ78fFxX"); break;
	}
	if (g.chance(1, 3)) s += g.str<std::string>(3, " -+xg/:@`[{.9\x80\xff");
	return s;
}
static const int bases[] = {10, 0, 16, 2, 8, 36, 3, 35, 11};

template<typename T> void str_to_int_(G& g) {
	int base = g.pick(bases);
	std::string s = int_text<T>(g, base);
	g.note("s", s); g.note("base", base); g.nontrivial(s.size() > 1);
	T e = model<T>(s, base);
	if (sizeof(T) == 8) { if (std::is_signed<T>::value) CHECK_EQ(T(std::strtoll(s.c_str(), 0, base)), e); else CHECK_EQ(T(std::strtoull(s.c_str(), 0, base)), e); }
	Text<char> t(s);
	CHECK_EQ(sprout::str_to_int<T>(t.get(), base), e);
	CHECK_EQ(sprout::str_to_int<T>(t.get(), nullptr, base), e);
	bool ascii = true; for (char c : s) ascii = ascii && (signed char)c > 0;
	if (ascii) {
		Text<wchar_t> w(s); CHECK_EQ(sprout::str_to_int<T>(w.get(), base), e);
		Text<char32_t> u(s); CHECK_EQ(sprout::str_to_int<T>(u.get(), base), e);
	}
	sprout::basic_string<char, 80> ss(s.c_str());
	CHECK_EQ(sprout::string_to_int<T>(ss, base), e);
	if (base == 0) CHECK_EQ(sprout::from_string<T>(ss), e);
	if (base == 10) {
		T a = model<T>(s, 10);
		if (std::is_signed<T>::value || s.find('-') == std::string::npos) CHECK_EQ(sprout::ascii_to_int<T>(t.get()), a);
	}
	char* end = 0; char* end2 = 0;
	if (sizeof(T) == 8) {
		CHECK_EQ(sprout::str_to_int<T>(t.get(), &end, base), e);
		std::strtoll(t.get(), &end2, base);
		CHECK_EQ(end - t.get(), end2 - t.get());
	}
	size_t idx = 999;
	T r = sprout::string_to_int<T>(ss, &idx, base);
	std::strtoll(s.c_str(), &end2, base);
	CHECK_EQ(idx, size_t(end2 - s.c_str()));
	CHECK_EQ(r, e);
}
PROP_INST(str_to_int_int, 2, str_to_int_<int>)
PROP_INST(str_to_int_uint, 2, str_to_int_<unsigned>)
PROP_INST(str_to_int_long, 2, str_to_int_<long>)
PROP_INST(str_to_int_ulong, 2, str_to_int_<unsigned long>)
PROP_INST(str_to_int_short, 1, str_to_int_<short>)
PROP_INST(str_to_int_ushort, 1, str_to_int_<unsigned short>)
PROP_INST(str_to_int_schar, 1, str_to_int_<signed char>)
PROP_INST(str_to_int_uchar, 1, str_to_int_<unsigned char>)

PROP(named_functions, 2) {
	int base = g.pick(bases);
	std::string s = int_text<long>(g, base);
	g.note("s", s); g.note("base", base); g.nontrivial(s.size() > 1);
	Text<char> t(s); char const* p = t.get();
	sprout::basic_string<char, 80> ss(p);
	CHECK_EQ(sprout::strtol(p, base), std::strtol(p, 0, base));
	CHECK_EQ(sprout::strtol(p, nullptr, base), std::strtol(p, 0, base));
	CHECK_EQ(sprout::strtoll(p, base), std::strtoll(p, 0, base));
	CHECK_EQ(sprout::strtoul(p, base), std::strtoul(p, 0, base));
	CHECK_EQ(sprout::strtoull(p, base), std::strtoull(p, 0, base));
	CHECK_EQ(sprout::strtoimax(p, base), std::strtoimax(p, 0, base));
	CHECK_EQ(sprout::strtoumax(p, base), std::strtoumax(p, 0, base));
	char* e1 = 0; char* e2 = 0;
	CHECK_EQ(sprout::strtol(p, &e1, base), std::strtol(p, &e2, base)); CHECK(e1 == e2);
	CHECK_EQ(sprout::strtoull(p, &e1, base), std::strtoull(p, &e2, base)); CHECK(e1 == e2);
	CHECK_EQ(sprout::strtoimax(p, &e1, base), std::strtoimax(p, &e2, base)); CHECK(e1 == e2);
	CHECK_EQ(sprout::stoi(ss, base), model<int>(s, base));
	CHECK_EQ(sprout::stol(ss, base), model<long>(s, base));
	CHECK_EQ(sprout::stoul(ss, base), model<unsigned long>(s, base));
	CHECK_EQ(sprout::stoll(ss, base), model<long long>(s, base));
	CHECK_EQ(sprout::stoull(ss, base), model<unsigned long long>(s, base));
	CHECK_EQ(sprout::stoimax(ss, base), model<intmax_t>(s, base));
	CHECK_EQ(sprout::stoumax(ss, base), model<uintmax_t>(s, base));
	CHECK_EQ(sprout::atoi(p), model<int>(s, 10));
	CHECK_EQ(sprout::atol(p), model<long>(s, 10));
	CHECK_EQ(sprout::atoll(p), model<long long>(s, 10));
	// the base is ten when it is left out
#define DEF(F) CHECK_EQ(sprout::F(p), std::F(p, 0, 10)); CHECK_EQ(sprout::F(p, nullptr), std::F(p, 0, 10)); CHECK_EQ(sprout::F(p, &e1), std::F(p, &e2, 10)); CHECK(e1 == e2); CHECK_EQ(sprout::F(p, &e1, base), std::F(p, &e2, base)); CHECK(e1 == e2);
	DEF(strtol) DEF(strtoll) DEF(strtoul) DEF(strtoull) DEF(strtoimax) DEF(strtoumax)
	size_t i1 = 0;
#define DEFS(F, T) CHECK_EQ(sprout::F(ss), model<T>(s, 10)); CHECK_EQ(sprout::F(ss, &i1), model<T>(s, 10)); std::strtol(p, &e2, 10); CHECK_EQ(i1, size_t(e2 - p));
	DEFS(stoi, int) DEFS(stol, long) DEFS(stoul, unsigned long) DEFS(stoll, long long) DEFS(stoull, unsigned long long) DEFS(stoimax, intmax_t) DEFS(stoumax, uintmax_t)
	CHECK_EQ(sprout::stol(ss, &i1, base), model<long>(s, base)); std::strtol(p, &e2, base); CHECK_EQ(i1, size_t(e2 - p));
}

template<typename S> std::string narrow(S const& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) r += char(s[i]); return r; }
template<typename T, int Base> void base_round(G& g, T v) {
	u128 m = v < 0 ? u128(-(__int128)v) : u128(v);
	std::string e = (v < 0 ? "-" : "") + render(m, Base, false);
	auto s = sprout::int_to_string<char, Base>(v);
	CHECK_EQ(narrow(s), e); CHECK(s.c_str()[s.size()] == 0);
	CHECK_EQ(narrow(sprout::int_to_string<wchar_t, Base>(v)), e);
	CHECK_EQ(sprout::string_to_int<T>(s, Base), v);
}
template<typename T> void int_to_string_(G& g) {
	T v = g.integer<T>();
	g.note("v", v); g.nontrivial(v > 9 || v < 0);
	auto s = sprout::to_string(v);
	std::string e = std::to_string(v);
	CHECK_EQ(narrow(s), e); CHECK_EQ(s.size(), e.size()); CHECK(s.c_str()[s.size()] == 0);
	CHECK_EQ(narrow(sprout::to_wstring(v)), e);
	CHECK_EQ(narrow(sprout::to_u16string(v)), e);
	CHECK_EQ(narrow(sprout::to_u32string(v)), e);
	CHECK_EQ(sprout::from_string<T>(s), v);
	CHECK_EQ(sprout::string_to_int<T>(sprout::to_wstring(v)), v);
	base_round<T, 2>(g, v); base_round<T, 8>(g, v); base_round<T, 16>(g, v);
}
PROP_INST(int_to_string_int, 2, int_to_string_<int>)
PROP_INST(int_to_string_uint, 1, int_to_string_<unsigned>)
PROP_INST(int_to_string_long, 2, int_to_string_<long>)
PROP_INST(int_to_string_ulong, 2, int_to_string_<unsigned long>)
PROP_INST(int_to_string_short, 1, int_to_string_<short>)
PROP_INST(int_to_string_schar, 1, int_to_string_<signed char>)
PROP_INST(int_to_string_ushort, 1, int_to_string_<unsigned short>)

// ---- floating point
static std::string float_text(G& g, int& nd, int& ex, int maxd, int maxe) {
	std::string s = g.str<std::string>(2, " \t\n");
	switch (g.draw(3)) { case 1: s += '-'; break; case 2: s += '+'; }
	std::string a = g.str<std::string>(maxd, "0123456789"), b;
	s += a;
	if (g.flag()) { s += '.'; b = g.str<std::string>(maxd, "0123456789"); s += b; }
	nd = int(a.size() + b.size()); ex = 0;
	if (nd && g.flag()) {
		s += g.flag() ? 'e' : 'E';
		switch (g.draw(3)) { case 1: s += '-'; break; case 2: s += '+'; }
		ex = int(g.draw(g.chance(1, 3) ? maxe : 12));
		s += std::to_string(ex);
		if (g.chance(1, 60)) s += "0000000000000";	// absurd exponents saturate
	}
	if (g.chance(1, 4)) s += g.str<std::string>(2, " -+x/:g.");
	return s;
}
template<typename T> T ref(char const* p, char** e);
template<> float ref<float>(char const* p, char** e) { return std::strtof(p, e); }
template<> double ref<double>(char const* p, char** e) { return std::strtod(p, e); }
template<> long double ref<long double>(char const* p, char** e) { return std::strtold(p, e); }
template<typename T> void close_to(T a, T r, int ulps, char const* what) {
	if (r != r) { CHECK_MSG(a != a, what); return; }
	T lo = std::numeric_limits<T>::min();
	if (std::isinf(r)) { CHECK_MSG(a == r || std::fabs(a) > std::numeric_limits<T>::max() * T(0.9999), what << " got " << show(a) << " expected " << show(r)); return; }
	if (std::fabs(r) < lo * 1e6) { CHECK_MSG(std::fabs(a - r) <= lo * T(1e6) * std::numeric_limits<T>::epsilon() * ulps + lo * std::numeric_limits<T>::epsilon(), what << " got " << show(a) << " expected " << show(r)); return; }
	if (std::fabs(r) > std::numeric_limits<T>::max() * T(0.9999)) { CHECK_MSG(std::isinf(a) || std::fabs(a) > std::numeric_limits<T>::max() * T(0.999), what); return; }
	CHECK_MSG(std::fabs(a - r) <= std::fabs(r) * std::numeric_limits<T>::epsilon() * ulps, what << " got " << show(a) << " expected " << show(r));
}
template<typename T> void str_to_float_(G& g) {
	int nd, ex;
	bool f = sizeof(T) == 4;
	std::string s = float_text(g, nd, ex, f ? 9 : 17, std::numeric_limits<T>::max_exponent10 + (f ? 20 : 40));
	g.note("s", s); g.nontrivial(nd > 1);
	Text<char> t(s);
	T r = ref<T>(t.get(), 0);
	T a = sprout::str_to_float<T>(t.get());
	if (nd == 0) { CHECK_EQ(a, T(0)); }
	else close_to(a, r, 2 * nd + 40, "str_to_float");
	// exactly representable integers and dyadics are exact
	if (nd && nd <= (f ? 7 : 15) && ex == 0 && r == std::floor(r) && s.find('.') == std::string::npos) CHECK_EQ(a, r);
	CHECK(nd == 0 || std::signbit(a) == std::signbit(r));
	Text<wchar_t> w(s); T aw = sprout::str_to_float<T>(w.get()); CHECK(same_fp_signed(aw, a));
	sprout::basic_string<char, 80> ss(s.c_str());
	CHECK(same_fp_signed(sprout::string_to_float<T>(ss), a));
	CHECK(same_fp_signed(sprout::from_string<T>(ss), a));
	char* e1 = 0; char* e2 = 0;
	T x = sprout::str_to_float<T>(t.get(), &e1); r = ref<T>(t.get(), &e2);
	CHECK(same_fp_signed(x, r)); CHECK(e1 == e2);
	size_t idx = 0;
	CHECK(same_fp_signed(sprout::string_to_float<T>(ss, &idx), r)); CHECK_EQ(idx, size_t(e2 - t.get()));
}
PROP_INST(str_to_float_double, 4, str_to_float_<double>)
PROP_INST(str_to_float_float, 2, str_to_float_<float>)
PROP_INST(str_to_float_ldouble, 2, str_to_float_<long double>)
PROP(named_float, 1) {
	int nd, ex; std::string s = float_text(g, nd, ex, 12, 30);
	g.note("s", s); g.nontrivial(nd > 1);
	sprout::basic_string<char, 80> ss(s.c_str());
	char const* p = ss.c_str();
	CHECK_EQ(sprout::strtod(p), sprout::str_to_float<double>(p)); CHECK_EQ(sprout::strtof(p), sprout::str_to_float<float>(p)); CHECK_EQ(sprout::strtold(p), sprout::str_to_float<long double>(p));
	CHECK_EQ(sprout::strtod(p, nullptr), sprout::strtod(p));
	CHECK_EQ(sprout::atof(p), sprout::strtod(p));
	CHECK_EQ(sprout::stod(ss), sprout::strtod(p)); CHECK_EQ(sprout::stof(ss), sprout::strtof(p)); CHECK_EQ(sprout::stold(ss), sprout::strtold(p));
	if (nd) close_to(sprout::atof(p), std::atof(p), 100, "atof");
}

template<typename T> T some_float(G& g, double maxmag) {
	switch (g.draw(5)) {
	case 0: return T(g.irange(-100000, 100000)) / T(1000);
	case 1: return T(g.irange(-1000000, 1000000)) / T(1 << g.draw(12));
	case 2: { int k = g.irange(0, 9); T p = T(std::pow(10.0, k)); return (g.flag() ? T(1) : T(-1)) * (p - T(std::ldexp(1.0, -g.irange(0, 40)))); }
	case 3: return T((g.flag() ? 1 : -1) * std::pow(10.0, g.real_in(-9.0, std::log10(maxmag))));
	default: return T(g.irange(-2000000, 2000000)) / T(1000000);
	}
}
template<typename T> void float_to_string_(G& g) {
	double mm = sizeof(T) == 4 ? 4e6 : 4e15;
	T v = some_float<T>(g, mm);
	if (g.chance(1, 12)) v = T(g.pick({0.0, -0.0, HUGE_VAL, -HUGE_VAL, 0.5, 0.9999995, 9.9999995, -0.0000004, 0.0000005}));
	g.note("v", v); g.nontrivial(v != std::floor(v));
	auto s = sprout::to_string(v);
	std::string t = narrow(s);
	CHECK_EQ(std::strlen(s.c_str()), s.size());
	g.note("t", t);
	CHECK_EQ(narrow(sprout::to_wstring(v)), t); CHECK_EQ(narrow(sprout::to_u32string(v)), t);
	if (std::isinf(v)) { CHECK_EQ(t, std::string(v < 0 ? "-inf" : "inf")); return; }
	size_t i = 0;
	CHECK((t[0] == '-') == bool(std::signbit(v)));
	if (t[0] == '-') ++i;
	size_t dot = t.find('.');
	CHECK(dot != std::string::npos && dot > i && t.size() == dot + 7);
	for (size_t k = i; k < t.size(); ++k) CHECK(k == dot || (t[k] >= '0' && t[k] <= '9'));
	CHECK(dot == i + 1 || t[i] != '0');
	long double back = std::strtold(t.c_str(), 0), err = back - (long double)v;
	long double tol = 0.5000001e-6L + 4 * std::numeric_limits<T>::epsilon() * std::fabs((long double)v);
	if (std::fabs(v) * std::numeric_limits<T>::epsilon() * 1e6 > 0.25) tol += 1e-6L;	// the sixth decimal is below the precision of the type
	CHECK_MSG(std::fabs(err) <= tol, t << " is not " << show(v));
}
PROP_INST(float_to_string_double, 3, float_to_string_<double>)
PROP_INST(float_to_string_float, 2, float_to_string_<float>)
template<typename T> void float_to_string_exp_(G& g) {
	T v = g.flag() ? some_float<T>(g, 1e9) : T((g.flag() ? 1 : -1) * std::pow(10.0, sizeof(T) == 4 ? g.real_in(-30.0, 37.0) : g.real_in(-290.0, 307.0)));
	if (g.chance(1, 12)) v = T(g.pick({0.0, -0.0, HUGE_VAL, -HUGE_VAL, 9.9999995, 0.1, 1e5, 1e22, 9.99999951e10}));
	g.note("v", v); g.nontrivial(v != 0);
	std::string t = narrow(sprout::float_to_string_exp<char>(v));
	g.note("t", t);
	CHECK_EQ(narrow(sprout::float_to_string_exp<wchar_t>(v)), t);
	if (std::isinf(v)) { CHECK_EQ(t, std::string(v < 0 ? "-inf" : "inf")); return; }
	CHECK((t[0] == '-') == bool(std::signbit(v)));
	size_t i = t[0] == '-';
	CHECK(t.size() >= i + 12 && t[i + 1] == '.' && t[i + 8] == 'e' && (t[i + 9] == '+' || t[i + 9] == '-'));
	for (size_t k = i; k < t.size(); ++k) CHECK(k == i + 1 || k == i + 8 || k == i + 9 || (t[k] >= '0' && t[k] <= '9'));
	CHECK(v == 0 || t[i] != '0');
	CHECK(t.size() == i + 12 || (t.size() == i + 13 && t[i + 10] != '0'));
	long double back = std::strtold(t.c_str(), 0), mag = std::fabs((long double)v);
	long double unit = mag == 0 ? 0 : std::pow(10.0L, std::floor(std::log10(mag))) * 1e-6L;
	CHECK_MSG(std::fabs(back - (long double)v) <= unit * (sizeof(T) == 4 ? 2.5L : 0.51L) , t << " is not " << show(v));
}
PROP_INST(float_to_string_exp_double, 3, float_to_string_exp_<double>)
PROP_INST(float_to_string_exp_float, 1, float_to_string_exp_<float>)

// ---- integer arithmetic of cstdlib / cinttypes
template<typename T> void div_(G& g) {
	T a = g.integer<T>(), b = g.integer<T>();
	if (b == 0) b = 1;
	if (std::is_signed<T>::value && a == std::numeric_limits<T>::min() && b == T(-1)) b = 1;
	g.note("a", a); g.note("b", b); g.nontrivial(a % b != 0);
	auto r = sprout::div(a, b);
	CHECK_EQ(r.quot, a / b); CHECK_EQ(r.rem, a % b);
	T m = a == std::numeric_limits<T>::min() ? a + 1 : a;
	CHECK_EQ(sprout::abs(m), m < 0 ? -m : m);
}
PROP_INST(div_int, 1, div_<int>)
PROP_INST(div_long, 1, div_<long>)
PROP_INST(div_llong, 1, div_<long long>)
PROP(abs_named, 0.5) {
	long a = g.integer<long>(); if (a == std::numeric_limits<long>::min()) ++a;
	g.nontrivial(a < 0);
	CHECK_EQ(sprout::labs(a), std::labs(a)); CHECK_EQ(sprout::llabs(a), std::llabs(a)); CHECK_EQ(sprout::imaxabs(a), std::imaxabs(a));
	long b = g.integer<long>(); if (b == 0 || b == -1) b = 7;
	auto l = sprout::ldiv(a, b); auto ll = sprout::lldiv(a, b); auto m = sprout::imaxdiv(a, b);
	CHECK_EQ(l.quot, a / b); CHECK_EQ(l.rem, a % b); CHECK_EQ(ll.quot, a / b); CHECK_EQ(ll.rem, a % b); CHECK_EQ(m.quot, a / b); CHECK_EQ(m.rem, a % b);
}
