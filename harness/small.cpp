// L01: small vocabulary types - three-valued logic, non-owning pointer, compressed pair
#include <sprout/config.hpp>
#include <cstdint>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <locale>
#include <sprout/logic/tribool.hpp>
#include <sprout/memory.hpp>
#include <sprout/memory/exempt_ptr.hpp>
#include <sprout/memory/observer_ptr.hpp>
#include <sprout/compressed_pair.hpp>
#include <sprout/utility/value_holder.hpp>
#include <sprout/functional/hash.hpp>
#include "pbt.hpp"

using sprout::logic::tribool;
using sprout::logic::indeterminate;

// ---------------------------------------------------------------- tribool
// Kleene's strong three-valued logic: F=0, U=1, T=2; and = min, or = max, not = 2-x
static tribool mk(int k) { return k == 0 ? tribool(false) : k == 2 ? tribool(true) : tribool(indeterminate); }
static int tv(tribool t) {
	int r = indeterminate(t) ? 1 : t ? 2 : 0;
	int by_value = t.value == tribool::false_value ? 0 : t.value == tribool::true_value ? 2 : 1;
	CHECK_EQ(r, by_value);
	return r;
}
static int keq(int a, int b) { return a == 1 || b == 1 ? 1 : a == b ? 2 : 0; }
static int kmin(int a, int b) { return a < b ? a : b; }
static int kmax(int a, int b) { return a < b ? b : a; }

PROP(tribool_operators, 3) {
	int a = (int)g.draw(3), b = (int)g.draw(3);
	g.note("a", a); g.note("b", b);
	g.nontrivial(a == 1 || b == 1);
	tribool x = mk(a), y = mk(b);
	CHECK_EQ(tv(x), a);
	CHECK_EQ(tv(!x), 2 - a);
	CHECK_EQ(tv(x && y), kmin(a, b));
	CHECK_EQ(tv(x || y), kmax(a, b));
	CHECK_EQ(tv(x == y), keq(a, b));
	CHECK_EQ(tv(x != y), 2 - keq(a, b));
	// mixed with bool
	if (b != 1) {
		bool q = b == 2;
		CHECK_EQ(tv(x && q), kmin(a, b)); CHECK_EQ(tv(q && x), kmin(a, b));
		CHECK_EQ(tv(x || q), kmax(a, b)); CHECK_EQ(tv(q || x), kmax(a, b));
		CHECK_EQ(tv(x == q), keq(a, b)); CHECK_EQ(tv(q == x), keq(a, b));
		CHECK_EQ(tv(x != q), 2 - keq(a, b)); CHECK_EQ(tv(q != x), 2 - keq(a, b));
	} else {
		CHECK_EQ(tv(x && indeterminate), kmin(a, 1)); CHECK_EQ(tv(indeterminate && x), kmin(a, 1));
		CHECK_EQ(tv(x || indeterminate), kmax(a, 1)); CHECK_EQ(tv(indeterminate || x), kmax(a, 1));
		CHECK_EQ(tv(x == indeterminate), 1); CHECK_EQ(tv(indeterminate == x), 1);
		CHECK_EQ(tv(x != indeterminate), 1); CHECK_EQ(tv(indeterminate != x), 1);
	}
	CHECK_EQ((bool)(x ? true : false), a == 2);
	CHECK_EQ(tv(tribool()), 0);
	// hash
	CHECK_EQ(sprout::to_hash(x) == sprout::to_hash(y), a == b);
	CHECK_EQ(std::hash<tribool>()(x), sprout::to_hash(x));
}

// random formulas: evaluated by the library and by the model
struct Formula { int op, l, r, c; };
PROP(tribool_formula, 4) {
	std::vector<Formula> f;
	std::vector<int> val;
	std::vector<tribool> got;
	int n = 2 + (int)g.size(14);
	std::string text;
	bool u = false;
	for (int i = 0; i < n; ++i) {
		int op = i == 0 ? 0 : (int)g.draw(6);
		int a = i ? (int)g.draw(i) : 0, b = i ? (int)g.draw(i) : 0;
		int k = (int)g.draw(3);
		switch (op) {
		case 0: val.push_back(k); got.push_back(mk(k)); break;
		case 1: val.push_back(2 - val[a]); got.push_back(!got[a]); break;
		case 2: val.push_back(kmin(val[a], val[b])); got.push_back(got[a] && got[b]); break;
		case 3: val.push_back(kmax(val[a], val[b])); got.push_back(got[a] || got[b]); break;
		case 4: val.push_back(keq(val[a], val[b])); got.push_back(got[a] == got[b]); break;
		default: val.push_back(2 - keq(val[a], val[b])); got.push_back(got[a] != got[b]); break;
		}
		u = u || val.back() == 1;
		text += char('0' + op); text += char('a' + a); text += char('a' + b); text += ' ';
	}
	g.note("formula", text);
	g.nontrivial(u && n > 3);
	for (int i = 0; i < n; ++i) CHECK_EQ(tv(got[i]), val[i]);
}

PROP(tribool_text, 3) {
	bool alpha = g.flag(), custom = g.flag(), wide = g.flag();
	std::vector<int> seq;
	int n = 1 + (int)g.size(6);
	for (int i = 0; i < n; ++i) seq.push_back((int)g.draw(3));
	g.note("alpha", alpha); g.note("custom", custom); g.note("seq", seq);
	g.nontrivial(alpha && n > 1);
	std::string nm = custom ? "maybe" : "indeterminate";
	std::string want;
	for (int v : seq) { want += alpha ? (v == 0 ? std::string("false") : v == 2 ? std::string("true") : nm) : (v == 0 ? "0" : v == 2 ? "1" : "2"); want += ' '; }
	if (wide) {
		std::wstringstream ss;
		if (custom) ss.imbue(std::locale(std::locale::classic(), new sprout::logic::indeterminate_name<wchar_t>(L"maybe")));
		if (alpha) ss << std::boolalpha;
		for (int v : seq) ss << mk(v) << L' ';
		std::wstring w = ss.str();
		CHECK_EQ(std::string(w.begin(), w.end()), want);
		if (alpha) ss >> std::boolalpha;
		for (int v : seq) { tribool t = mk((v + 1) % 3); CHECK(bool(ss >> t)); CHECK_EQ(tv(t), v); }
	} else {
		std::stringstream ss;
		if (custom) ss.imbue(std::locale(std::locale::classic(), new sprout::logic::indeterminate_name<char>("maybe")));
		if (alpha) ss << std::boolalpha;
		for (int v : seq) { if (v == 1 && g.flag()) ss << indeterminate << ' '; else ss << mk(v) << ' '; }
		CHECK_EQ(ss.str(), want);
		if (alpha) ss >> std::boolalpha;
		for (int v : seq) { tribool t = mk((v + 1) % 3); CHECK(bool(ss >> t)); CHECK_EQ(tv(t), v); }
	}
	// text which is none of the three is refused and leaves the target alone
	{
		static const char* const bad[] = {"folse", "trve", "indeterminatf", "yes", "x", "fals ", "indet ", "tru"};
		static const char* const badn[] = {"3", "-1", "x", "99", "", "7"};
		std::istringstream is(alpha ? bad[g.draw(8)] : badn[g.draw(6)]);
		if (alpha) is >> std::boolalpha;
		int k = (int)g.draw(3);
		tribool t = mk(k);
		is >> t;
		CHECK(is.fail());
		CHECK_EQ(tv(t), k);
	}
}

// ---------------------------------------------------------------- exempt_ptr against a raw pointer
PROP(exempt_ptr_model, 6) {
	static int arr[17];
	for (int i = 0; i < 17; ++i) arr[i] = i * 3 + 1;
	const int NR = 3;
	sprout::exempt_ptr<int> p[NR];
	int* q[NR] = {0, 0, 0};
	int steps = 1 + (int)g.size(40);
	g.note("steps", steps);
	int moved = 0;
	for (int s = 0; s < steps; ++s) {
		int i = (int)g.draw(NR), j = (int)g.draw(NR);
		int op = (int)g.draw(16);
		switch (op) {
		case 0: q[i] = arr + g.draw(16); p[i] = q[i]; break;
		case 1: q[i] = arr + g.draw(16); p[i].reset(q[i]); break;
		case 2: q[i] = arr + g.draw(16); p[i] = sprout::exempt_ptr<int>(q[i]); break;
		case 3: q[i] = arr + g.draw(16); p[i] = sprout::make_exempt(q[i]); break;
		case 4: q[i] = q[j]; p[i] = p[j]; break;
		case 5: { int* r = p[i].release(); CHECK(r == q[i]); q[i] = 0; break; }
		case 6: if (g.flag()) p[i] = nullptr; else p[i].reset(); q[i] = 0; break;
		case 7: if (q[i] && q[i] < arr + 16) { CHECK(&++p[i] == &p[i]); ++q[i]; ++moved; } break;
		case 8: if (q[i] && q[i] > arr) { CHECK(&--p[i] == &p[i]); --q[i]; ++moved; } break;
		case 9: if (q[i] && q[i] < arr + 16) { CHECK((p[i]++).get() == q[i]); ++q[i]; ++moved; } break;
		case 10: if (q[i] && q[i] > arr) { CHECK((p[i]--).get() == q[i]); --q[i]; ++moved; } break;
		case 11: if (q[i]) { std::ptrdiff_t d = (std::ptrdiff_t)g.draw(17) - (q[i] - arr); CHECK((p[i] + d).get() == q[i] + d); CHECK((d + p[i]).get() == q[i] + d); CHECK((p[i] - -d).get() == q[i] + d); p[i] = p[i] + d; q[i] += d; ++moved; } break;
		case 12: p[i].swap(p[j]); std::swap(q[i], q[j]); break;
		case 13: { using sprout::swap; swap(p[i], p[j]); std::swap(q[i], q[j]); break; }
		case 14: if (q[i]) { std::ptrdiff_t k = (std::ptrdiff_t)g.draw(17) - (q[i] - arr); sprout::exempt_ptr<int> const c = p[i]; CHECK(&p[i][k] == q[i] + k); CHECK(&c[k] == q[i] + k); } break;
		default: if (q[i] && q[i] != arr + 16) { int v = (int)g.draw(1000); *p[i] = v; CHECK_EQ(*q[i], v); CHECK(p[i].operator->() == q[i]); } break;
		}
		for (int a = 0; a < NR; ++a) {
			CHECK(p[a].get() == q[a]);
			CHECK_EQ(bool(p[a]), q[a] != 0);
			CHECK(static_cast<int*>(p[a]) == q[a]);
			CHECK((+p[a]).get() == q[a]);
			CHECK_EQ(p[a] == nullptr, q[a] == 0); CHECK_EQ(nullptr == p[a], q[a] == 0);
			CHECK_EQ(p[a] != nullptr, q[a] != 0); CHECK_EQ(nullptr != p[a], q[a] != 0);
			CHECK_EQ(p[a] < nullptr, std::less<int*>()(q[a], 0)); CHECK_EQ(p[a] > nullptr, std::less<int*>()(0, q[a]));
			CHECK_EQ(p[a] <= nullptr, !std::less<int*>()(0, q[a])); CHECK_EQ(p[a] >= nullptr, !std::less<int*>()(q[a], 0));
			CHECK_EQ(nullptr < p[a], std::less<int*>()(0, q[a])); CHECK_EQ(nullptr > p[a], std::less<int*>()(q[a], 0));
			CHECK_EQ(nullptr <= p[a], !std::less<int*>()(q[a], 0)); CHECK_EQ(nullptr >= p[a], !std::less<int*>()(0, q[a]));
			for (int b = 0; b < NR; ++b) {
				CHECK_EQ(p[a] == p[b], q[a] == q[b]); CHECK_EQ(p[a] != p[b], q[a] != q[b]);
				std::less<int*> L;
				CHECK_EQ(p[a] < p[b], L(q[a], q[b])); CHECK_EQ(p[a] > p[b], L(q[b], q[a]));
				CHECK_EQ(p[a] <= p[b], !L(q[b], q[a])); CHECK_EQ(p[a] >= p[b], !L(q[a], q[b]));
				if (q[a] && q[b]) CHECK_EQ(p[a] - p[b], q[a] - q[b]);
				// pointer to const converts and compares
				sprout::exempt_ptr<int const> cp = p[b];
				CHECK(cp.get() == q[b]);
				CHECK_EQ(p[a] == cp, q[a] == q[b]); CHECK_EQ(p[a] < cp, L(q[a], q[b]));
				if (q[a] == q[b]) CHECK_EQ(sprout::to_hash(p[a]), sprout::to_hash(p[b]));
			}
		}
	}
	g.nontrivial(moved > 0);
}

struct Bs { int a; Bs() : a(1) {} virtual ~Bs() {} };
struct Bx { int x; Bx() : x(2) {} virtual ~Bx() {} };
struct De : Bs, Bx { int d; De() : d(3) {} };
PROP(exempt_ptr_casts, 1) {
	De d[2]; Bs b;
	bool isd = g.flag(); int k = (int)g.draw(2);
	g.note("isd", isd); g.note("k", k);
	g.nontrivial(isd);
	sprout::exempt_ptr<De> dp(&d[k]);
	sprout::exempt_ptr<Bx> xp = dp;               // second base: address adjusts
	CHECK(xp.get() == static_cast<Bx*>(&d[k]));
	CHECK(sprout::static_pointer_cast<De>(xp).get() == &d[k]);
	sprout::exempt_ptr<Bs> bp(isd ? static_cast<Bs*>(&d[k]) : &b);
	CHECK(sprout::dynamic_pointer_cast<De>(bp).get() == (isd ? &d[k] : nullptr));
	CHECK(sprout::dynamic_pointer_cast<Bx>(bp).get() == (isd ? static_cast<Bx*>(&d[k]) : nullptr));
	sprout::exempt_ptr<De const> cp = dp;
	CHECK(sprout::const_pointer_cast<De>(cp).get() == &d[k]);
	CHECK_EQ(dp->d, 3); CHECK_EQ((*xp).x, 2);
	CHECK(sprout::get_pointer(dp) == &d[k]);
	std::ostringstream o1, o2; o1 << dp; o2 << (void*)&d[k];
	CHECK_EQ(o1.str(), o2.str());
	xp = dp; CHECK(xp.get() == static_cast<Bx*>(&d[k]));
	xp = &d[1 - k]; CHECK(xp.get() == static_cast<Bx*>(&d[1 - k]));
}

// ---------------------------------------------------------------- compressed_pair
struct E1 { int operator()(int x) const { return x + 1; } };
struct E2 { int operator()(int x) const { return x * 2; } };
template<class A, class B> struct cp_val;
template<class T> struct mkv { static T make(int k) { return T(k); } static int get(T const& t) { return (int)t; } };
template<> struct mkv<std::string> { static std::string make(int k) { return std::string(k % 40, char('a' + k % 7)) + std::to_string(k); } static int get(std::string const& s) { std::size_t i = 0; while (i < s.size() && s[i] >= 'a') ++i; return std::atoi(s.c_str() + i); } };
template<class A, class B> void cp_plain(pbt::G& g) {
	int a = (int)g.draw(1000), b = (int)g.draw(1000), c = (int)g.draw(1000), d = (int)g.draw(1000);
	g.note("a", a); g.note("b", b); g.note("c", c); g.note("d", d);
	g.nontrivial(a != c && b != d);
	typedef sprout::compressed_pair<A, B> P;
	P x(mkv<A>::make(a), mkv<B>::make(b)), y(mkv<A>::make(c), mkv<B>::make(d));
	P const& cx = x;
	CHECK_EQ(mkv<A>::get(x.first()), a); CHECK_EQ(mkv<B>::get(x.second()), b);
	CHECK_EQ(mkv<A>::get(cx.first()), a); CHECK_EQ(mkv<B>::get(cx.second()), b);
	CHECK((void*)&x.first() != (void*)&x.second());
	CHECK((void const*)&x.first() == (void const*)&cx.first());
	if (g.flag()) x.swap(y); else { using sprout::swap; swap(x, y); }
	CHECK_EQ(mkv<A>::get(x.first()), c); CHECK_EQ(mkv<B>::get(x.second()), d);
	CHECK_EQ(mkv<A>::get(y.first()), a); CHECK_EQ(mkv<B>::get(y.second()), b);
	P z(x); x.first() = mkv<A>::make(b);
	CHECK_EQ(mkv<A>::get(z.first()), c); CHECK_EQ(mkv<A>::get(x.first()), b); CHECK_EQ(mkv<B>::get(x.second()), d);
	z = y; CHECK_EQ(mkv<A>::get(z.first()), a); CHECK_EQ(mkv<B>::get(z.second()), b);
	P dflt; CHECK(dflt.first() == A()); CHECK(dflt.second() == B());
}
PROP_INST(cpair_int_string, 1, (cp_plain<int, std::string>));
PROP_INST(cpair_string_short, 1, (cp_plain<std::string, short>));
PROP_INST(cpair_int_int, 1, (cp_plain<int, int>));
PROP_INST(cpair_string_string, 1, (cp_plain<std::string, std::string>));
PROP(cpair_empty, 2) {
	int b = (int)g.draw(1000), d = (int)g.draw(1000), k = (int)g.draw(1000);
	g.note("b", b); g.note("d", d); g.nontrivial(b != d);
	{	// empty first
		typedef sprout::compressed_pair<E1, std::string> P;
		P x(E1(), mkv<std::string>::make(b)), y(mkv<std::string>::make(d));
		P const& cx = x;
		CHECK_EQ(x.first()(k), k + 1); CHECK_EQ(cx.first()(k), k + 1);
		CHECK_EQ(mkv<std::string>::get(cx.second()), b); CHECK_EQ(mkv<std::string>::get(y.second()), d);
		CHECK_EQ(sizeof(P), sizeof(std::string));
		x.swap(y);
		CHECK_EQ(mkv<std::string>::get(x.second()), d); CHECK_EQ(mkv<std::string>::get(y.second()), b);
	}
	{	// empty second
		typedef sprout::compressed_pair<int, E2> P;
		P x(b, E2()), y(d);
		P const& cx = x;
		CHECK_EQ(x.second()(k), k * 2); CHECK_EQ(cx.second()(k), k * 2);
		CHECK_EQ(cx.first(), b); CHECK_EQ(y.first(), d);
		CHECK_EQ(sizeof(P), sizeof(int));
		using sprout::swap; swap(x, y);
		CHECK_EQ(x.first(), d); CHECK_EQ(y.first(), b);
	}
	{	// both empty, different
		typedef sprout::compressed_pair<E1, E2> P;
		P x, y(E1(), (E2()));
		P const& cx = x;
		CHECK_EQ(x.first()(k), k + 1); CHECK_EQ(cx.second()(k), k * 2); CHECK_EQ(y.second()(k), k * 2); CHECK_EQ(cx.first()(k), k + 1);
		CHECK_EQ(sizeof(P), (std::size_t)1);
		x.swap(y);
	}
	{	// both empty, same
		typedef sprout::compressed_pair<E1, E1> P;
		P x, y(E1(), (E1()));
		P const& cx = x;
		CHECK_EQ(x.first()(k), k + 1); CHECK_EQ(cx.second()(k), k + 1); CHECK_EQ(y.second()(k), k + 1);
		x.swap(y);
	}
	{	// a single argument initialises its own side
		sprout::compressed_pair<int, std::string> p(b), q(mkv<std::string>::make(d));
		CHECK_EQ(p.first(), b); CHECK_EQ(p.second(), std::string());
		CHECK_EQ(mkv<std::string>::get(q.second()), d);
		sprout::compressed_pair<std::string, std::string> r(mkv<std::string>::make(b));
		CHECK_EQ(mkv<std::string>::get(r.first()), b);
		CHECK_EQ(r.second(), r.first());
	}
}

// ---------------------------------------------------------------- value_holder
template<class T> void vh_value(pbt::G& g) {
	typedef sprout::value_holder<T> H;
	std::vector<int> m; std::vector<H> h;
	int n = 1 + (int)g.draw(3);
	for (int i = 0; i < n; ++i) { int k = (int)g.draw(1000); m.push_back(k); h.push_back(H(mkv<T>::make(k))); }
	int steps = (int)g.size(20);
	g.note("n", n); g.note("steps", steps); g.nontrivial(n > 1 && steps > 1);
	for (int s = 0; s < steps; ++s) {
		int i = (int)g.draw(n), j = (int)g.draw(n), k = (int)g.draw(1000);
		switch (g.draw(6)) {
		case 0: h[i] = h[j]; m[i] = m[j]; break;
		case 1: { T v = mkv<T>::make(k); h[i] = v; m[i] = k; CHECK_EQ(mkv<T>::get(v), k); break; }
		case 2: h[i] = mkv<T>::make(k); m[i] = k; break;
		case 3: h[i].swap(h[j]); std::swap(m[i], m[j]); break;
		case 4: { using sprout::swap; swap(h[i], h[j]); std::swap(m[i], m[j]); break; }
		default: *h[i] = mkv<T>::make(k); m[i] = k; break;
		}
		for (int a = 0; a < n; ++a) {
			H const& c = h[a];
			CHECK_EQ(mkv<T>::get(h[a].get()), m[a]); CHECK_EQ(mkv<T>::get(c.get()), m[a]);
			CHECK_EQ(mkv<T>::get(*c), m[a]); CHECK_EQ(mkv<T>::get(c.value()), m[a]); CHECK_EQ(mkv<T>::get(sprout::get(h[a])), m[a]);
			CHECK_EQ(mkv<T>::get(*c.get_pointer()), m[a]);
			CHECK(c.is_initialized()); CHECK(bool(c)); CHECK(!!c);
		}
	}
}
PROP_INST(value_holder_int, 1, vh_value<int>);
PROP_INST(value_holder_string, 1, vh_value<std::string>);
PROP(value_holder_ref, 2) {
	// a holder of a reference rebinds, never assigns through
	typedef sprout::value_holder<int&> H;
	int arr[5]; for (int i = 0; i < 5; ++i) arr[i] = 10 * i;
	std::vector<int*> m; std::vector<H> h;
	int n = 2 + (int)g.draw(2);
	for (int i = 0; i < n; ++i) { if (g.chance(1, 4)) { m.push_back(0); h.push_back(H()); } else { int k = (int)g.draw(5); m.push_back(arr + k); h.push_back(H(arr[k])); } }
	int steps = 1 + (int)g.size(20); g.note("steps", steps); g.nontrivial(steps > 2);
	for (int s = 0; s < steps; ++s) {
		int i = (int)g.draw(n), j = (int)g.draw(n), k = (int)g.draw(5);
		switch (g.draw(5)) {
		case 0: h[i] = h[j]; m[i] = m[j]; break;
		case 1: h[i] = arr[k]; m[i] = arr + k; break;
		case 2: h[i].swap(h[j]); std::swap(m[i], m[j]); break;
		case 3: { using sprout::swap; swap(h[i], h[j]); std::swap(m[i], m[j]); break; }
		default: if (m[i]) { *h[i] += 1; } break;
		}
		for (int a = 0; a < n; ++a) { CHECK(h[a].get_pointer() == m[a]); CHECK_EQ(h[a].is_initialized(), m[a] != 0); CHECK_EQ(!h[a], m[a] == 0); if (m[a]) { CHECK(&h[a].get() == m[a]); CHECK(&*h[a] == m[a]); } }
	}
}
