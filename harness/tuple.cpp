// T01: sprout::tuple and sprout::pair against std::tuple / std::pair, tuple operations against list operations,
// and the small utilities over values (exchange, folds, chained comparison, pointee comparison, saturating arithmetic)
#include "pbt.hpp"
#include <tuple>
#include <sstream>
#include <memory>
#include <functional>
#include <sprout/tuple.hpp>
#include <sprout/tuple/operation.hpp>
#include <sprout/tuple/algorithm.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/utility/operation_ext.hpp>
#include <sprout/utility/exchange.hpp>
#include <sprout/utility/fold.hpp>
#include <sprout/utility/pack.hpp>
#include <sprout/utility/comparison.hpp>
#include <sprout/utility/limited.hpp>
#include <sprout/utility/compare_pointees.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/optional.hpp>
#include <sprout/array.hpp>
using namespace pbt;
namespace st = sprout::tuples;

typedef sprout::tuple<int, std::string, double, char> T4; typedef std::tuple<int, std::string, double, char> S4;
static int num(G& g) { return g.flag() ? int(g.draw(3)) - 1 : int(g.draw(0)); }
static std::string word(G& g) { return g.str(g.flag() ? 2 : 30, std::string("ab")); }
static double dbl(G& g) { return double(int(g.draw(5)) - 2) / 4; }
static S4 pick(G& g) { int a = num(g); std::string b = word(g); double c = dbl(g); char d = "abc"[g.draw(3)]; return S4(a, b, c, d); }
static T4 conv(S4 const& s) { return T4(std::get<0>(s), std::get<1>(s), std::get<2>(s), std::get<3>(s)); }
static std::string txt(S4 const& s) { std::ostringstream o; o << std::get<0>(s) << "," << std::get<1>(s) << "," << std::get<2>(s) << "," << std::get<3>(s); return o.str(); }
static std::string txt(T4 const& s) { std::ostringstream o; o << st::get<0>(s) << "," << st::get<1>(s) << "," << st::get<2>(s) << "," << st::get<3>(s); return o.str(); }
static void same(T4 const& t, S4 const& s, char const* what) { if (txt(t) != txt(s)) fail(__FILE__, __LINE__, std::string(what) + ": got " + txt(t) + " expected " + txt(s)); }

PROP(tuple_history, 4) {
	const int N = 2; T4 t[N]; S4 m[N]; size_t steps = 1 + g.size(16);
	for (int i = 0; i < N; ++i) same(t[i], m[i], "default");
	for (size_t k = 0; k < steps; ++k) {
		int i = int(g.draw(N)), j = int(g.draw(N)), op = int(g.draw(13)); S4 x = pick(g);
		g.note("op", std::to_string(op) + ":" + std::to_string(i) + std::to_string(j) + " " + txt(x));
		T4 const& cj = t[j];
		switch (op) {
		case 0: t[i] = cj; m[i] = m[j]; break;
		case 1: t[i] = conv(x); m[i] = x; break;
		case 2: t[i].swap(t[j]); std::swap(m[i], m[j]); break;
		case 3: { using sprout::swap; swap(t[i], t[j]); std::swap(m[i], m[j]); break; }
		case 4: st::get<0>(t[i]) = std::get<0>(x); std::get<0>(m[i]) = std::get<0>(x); break;
		case 5: st::get<1>(t[i]) = std::get<1>(x); std::get<1>(m[i]) = std::get<1>(x); break;
		case 6: st::get<2>(t[i]) = std::get<2>(x); st::get<3>(t[i]) = std::get<3>(x); std::get<2>(m[i]) = std::get<2>(x); std::get<3>(m[i]) = std::get<3>(x); break;
		case 7: { sprout::tuple<short, char const*, float, char> o(short(std::get<0>(x)), "lit", 0.5f, 'z'); t[i] = o; m[i] = S4(short(std::get<0>(x)), "lit", 0.5, 'z'); break; }
		case 8: { T4 y(cj); same(y, m[j], "copy"); T4 z(std::move(y)); same(z, m[j], "move"); t[i] = std::move(z); m[i] = m[j]; break; }
		case 9: { int a; std::string b; double c; char d; sprout::tie(a, b, c, d) = cj; S4 e(a, b, c, d); same(cj, e, "tie"); int a2; char d2; sprout::tie(a2, st::ignore, st::ignore, d2) = cj; CHECK(a2 == a && d2 == d); break; }
		case 10: { sprout::tuple<int&, std::string&, double&, char&> r(st::get<0>(t[i]), st::get<1>(t[i]), st::get<2>(t[i]), st::get<3>(t[i])); T4 y = conv(x); r = y; m[i] = x; break; }
		case 11: { T4 y = sprout::make_tuple(std::get<0>(x), std::get<1>(x), std::get<2>(x), std::get<3>(x)); t[i] = y; m[i] = x; break; }
		case 12: { std::string s = std::get<1>(x); T4 y(sprout::forward_as_tuple(std::get<0>(x), std::move(s), std::get<2>(x), 'q')); CHECK(s.empty() || std::get<1>(x).empty()); t[i] = y; m[i] = x; std::get<3>(m[i]) = 'q'; break; }
		}
		for (int q = 0; q < N; ++q) same(t[q], m[q], "slot");
	}
	g.nontrivial(steps > 2);
}
PROP(tuple_order, 3) {
	S4 a = pick(g), b = a;
	if (g.flag()) b = pick(g); else switch (g.draw(4)) { case 0: std::get<0>(b) = num(g); break; case 1: std::get<1>(b) = word(g); break; case 2: std::get<2>(b) = dbl(g); break; case 3: std::get<3>(b) = "abc"[g.draw(3)]; break; }
	g.note("a", txt(a)); g.note("b", txt(b)); T4 x = conv(a), y = conv(b);
	CHECK_EQ(x == y, a == b); CHECK_EQ(x != y, a != b); CHECK_EQ(x < y, a < b); CHECK_EQ(x > y, a > b); CHECK_EQ(x <= y, a <= b); CHECK_EQ(x >= y, a >= b);
	if (a == b) CHECK_EQ(sprout::to_hash(x), sprout::to_hash(y)); CHECK_EQ(std::hash<T4>()(x), sprout::to_hash(x));
	CHECK_EQ(sprout::to_hash(x), sprout::hash_values(std::get<0>(a), std::get<1>(a), std::get<2>(a), std::get<3>(a)));
	g.nontrivial(std::get<0>(a) == std::get<0>(b));
}
typedef sprout::pair<int, std::string> P; typedef std::pair<int, std::string> Q;
static void same(P const& p, Q const& q, char const* what) { if (p.first != q.first || p.second != q.second) fail(__FILE__, __LINE__, std::string(what) + ": got " + std::to_string(p.first) + "," + p.second + " expected " + std::to_string(q.first) + "," + q.second); }
// ordering must use < alone: Wk compares by key, its == also looks at the tag
struct Wk { int k, tag; };
inline bool operator<(Wk const& a, Wk const& b) { return a.k < b.k; }
inline bool operator==(Wk const& a, Wk const& b) { return a.k == b.k && a.tag == b.tag; }
PROP(order_by_less, 2) {
	Wk a[6]; for (auto& w : a) { w.k = int(g.draw(3)); w.tag = int(g.draw(2)); }
	for (int i = 0; i < 3; ++i) if (g.flag()) a[3 + i].k = a[i].k;
	g.note("k", std::to_string(a[0].k) + std::to_string(a[1].k) + std::to_string(a[2].k) + "/" + std::to_string(a[3].k) + std::to_string(a[4].k) + std::to_string(a[5].k));
	typedef sprout::pair<Wk, Wk> P; typedef sprout::tuple<Wk, Wk, Wk> T; typedef sprout::array<Wk, 3> A; typedef std::tuple<Wk, Wk, Wk> S;
	P p(a[0], a[1]), q(a[3], a[4]); std::pair<Wk, Wk> sp(a[0], a[1]), sq(a[3], a[4]);
	CHECK_EQ(p < q, sp < sq); CHECK_EQ(p > q, sp > sq); CHECK_EQ(p <= q, sp <= sq); CHECK_EQ(p >= q, sp >= sq); CHECK_EQ(p == q, sp == sq); CHECK_EQ(p != q, sp != sq);
	T t(a[0], a[1], a[2]), u(a[3], a[4], a[5]); S x(a[0], a[1], a[2]), y(a[3], a[4], a[5]);
	CHECK_EQ(t < u, x < y); CHECK_EQ(t > u, x > y); CHECK_EQ(t <= u, x <= y); CHECK_EQ(t >= u, x >= y); CHECK_EQ(t == u, x == y); CHECK_EQ(t != u, x != y);
	A c = {{a[0], a[1], a[2]}}, d = {{a[3], a[4], a[5]}};
	CHECK_EQ(c < d, x < y); CHECK_EQ(c > d, x > y); CHECK_EQ(c <= d, x <= y); CHECK_EQ(c >= d, x >= y); CHECK_EQ(c == d, x == y);
	g.nontrivial(a[0].k == a[3].k && a[0].tag != a[3].tag);
}
PROP(pair_history, 3) {
	const int N = 2; P p[N]; Q m[N]; size_t steps = 1 + g.size(14);
	for (size_t k = 0; k < steps; ++k) {
		int i = int(g.draw(N)), j = int(g.draw(N)), op = int(g.draw(13)); int a = num(g); std::string b = word(g); Q x(a, b);
		g.note("op", std::to_string(op) + ":" + std::to_string(i) + std::to_string(j) + " " + std::to_string(a) + b);
		P const& cj = p[j];
		switch (op) {
		case 0: p[i] = cj; m[i] = m[j]; break;
		case 1: p[i] = P(a, b); m[i] = x; break;
		case 2: p[i].swap(p[j]); std::swap(m[i], m[j]); break;
		case 3: { using sprout::swap; swap(p[i], p[j]); std::swap(m[i], m[j]); break; }
		case 4: p[i] = sprout::make_pair(a, b); m[i] = x; break;
		case 5: p[i] = sprout::pair<short, char const*>(short(a), "lit"); m[i] = Q(short(a), "lit"); break;
		case 6: p[i] = sprout::tuple<int, std::string>(a, b); m[i] = x; break;
		case 7: { sprout::tuple<short, char const*> t(short(a), "tt"); sprout::tuple<short, char const*> const& ct = t; P y(ct); same(y, Q(short(a), "tt"), "from tuple"); p[i] = ct; m[i] = Q(short(a), "tt"); break; }
		case 8: { P y(std::piecewise_construct, sprout::tuple<int>(a), sprout::tuple<std::size_t, char>(b.size(), 'w')); same(y, Q(a, std::string(b.size(), 'w')), "piecewise"); p[i] = std::move(y); m[i] = Q(a, std::string(b.size(), 'w')); break; }
		case 9: { P y(cj); P z(std::move(y)); same(z, m[j], "move"); p[i] = std::move(z); m[i] = m[j]; break; }
		case 10: st::get<0>(p[i]) = a; sprout::second(p[i]) = b; m[i] = x; break;
		case 11: { sprout::pair<long, std::string> y(cj); CHECK(y.first == m[j].first && y.second == m[j].second); sprout::tuple<long, std::string> t(cj); CHECK(st::get<0>(t) == m[j].first && st::get<1>(t) == m[j].second); t = P(a, b); CHECK(st::get<0>(t) == a && st::get<1>(t) == b); break; }
		case 12: { std::pair<int, std::string> s = std::pair<int, std::string>(cj); CHECK(s == m[j]); int ra; std::string rb; sprout::pair<int&, std::string&> r(ra, rb); r = cj; CHECK(ra == m[j].first && rb == m[j].second); break; }
		}
		for (int q = 0; q < N; ++q) { same(p[q], m[q], "slot"); CHECK(sprout::first(p[q]) == m[q].first && st::get<1>(p[q]) == m[q].second); }
	}
	Q a = m[0], b = g.chance(1, 3) ? m[0] : Q(g.flag() ? m[0].first : m[1].first, m[1].second); P x(a.first, a.second), y(b.first, b.second);
	CHECK_EQ(x == y, a == b); CHECK_EQ(x != y, a != b); CHECK_EQ(x < y, a < b); CHECK_EQ(x > y, a > b); CHECK_EQ(x <= y, a <= b); CHECK_EQ(x >= y, a >= b);
	if (a == b) CHECK_EQ(sprout::to_hash(x), sprout::to_hash(y)); CHECK_EQ(std::hash<P>()(x), sprout::to_hash(x)); CHECK_EQ(sprout::to_hash(x), sprout::hash_values(a.first, a.second));
	g.nontrivial(steps > 2);
}
// list view of a homogeneous-by-text tuple
struct Lst { std::vector<std::string> v; template<class... A> void operator()(A const&... a) { std::string r[] = { "", show(a)... }; v.assign(r + 1, r + 1 + sizeof...(A)); } };
template<class T> std::vector<std::string> lst(T const& t) { Lst l; sprout::apply(l, t); return l.v; }
typedef std::vector<std::string> VS;
static VS cat(VS a, VS const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
PROP(operations, 3) {
	S4 s = pick(g); T4 t = conv(s); T4 const& c = t; int n = num(g); std::string w = word(g); double d = dbl(g);
	g.note("t", txt(s)); VS base = { show(std::get<0>(s)), show(std::get<1>(s)), show(std::get<2>(s)), show(std::get<3>(s)) };
	CHECK_EQ(lst(c), base);
	sprout::tuple<double, std::string, int> u(d, w, n); VS ul = { show(d), show(w), show(n) };
	CHECK_EQ(lst(st::append_back(c, u)), cat(base, ul)); CHECK_EQ(lst(st::append_front(c, u)), cat(ul, base));
	CHECK_EQ(lst(st::append_back(c, sprout::tuple<>())), base); CHECK_EQ(lst(st::append_front(sprout::tuple<>(), u)), ul);
	CHECK_EQ(lst(st::push_back(c, n)), cat(base, VS{ show(n) })); CHECK_EQ(lst(st::push_front(c, n)), cat(VS{ show(n) }, base));
	CHECK_EQ(lst(st::push_back(c, n, w)), cat(base, VS{ show(n), show(w) })); CHECK_EQ(lst(st::push_front(c, n, w)), cat(VS{ show(n), show(w) }, base));
	CHECK_EQ(lst(st::pop_back(c)), VS(base.begin(), base.end() - 1)); CHECK_EQ(lst(st::pop_front(c)), VS(base.begin() + 1, base.end()));
	CHECK_EQ(lst(st::pop_front(st::push_front(c, w))), base); CHECK_EQ(lst(st::pop_back(st::push_back(c, w))), base);
	CHECK_EQ(lst(sprout::tuple_cat(c, u, sprout::tuple<>(), sprout::tuple<int>(n))), cat(cat(base, ul), VS{ show(n) }));
	CHECK_EQ(lst(sprout::tuple_cat(u, c)), cat(ul, base)); CHECK_EQ(lst(sprout::tuple_cat(u)), ul);
	CHECK_EQ(lst(sprout::tuple_cat(u, sprout::make_pair(n, w))), cat(ul, VS{ show(n), show(w) }));
	sprout::tuple<int, std::string> two(n, w); VS over = base; over[0] = show(n); over[1] = show(w); CHECK_EQ(lst(st::copy(c, two)), over);
	CHECK_EQ(lst(st::copy(two, c)), VS(base.begin(), base.begin() + 2)); CHECK_EQ(lst(st::deep_copy(c)), base);
	CHECK_EQ(lst(st::remake<T4>(c, n, w, d, 'r')), (VS{ show(n), show(w), show(d), show('r') })); CHECK_EQ(lst(st::make<T4>(n, w, d, 'r')), (VS{ show(n), show(w), show(d), show('r') }));
	// fewer or more elements than asked for: the rest are value-initialised or dropped
	CHECK_EQ(lst(T4(st::flexibly_construct, n, w)), (VS{ show(n), show(w), show(0.0), show('\0') })); CHECK_EQ(lst(T4(st::flexibly_construct, two)), (VS{ show(n), show(w), show(0.0), show('\0') }));
	CHECK_EQ(lst(sprout::tuple<int, std::string>(st::flexibly_construct, c)), VS(base.begin(), base.begin() + 2)); { T4 f = sprout::flex(two); CHECK_EQ(lst(f), (VS{ show(n), show(w), show(0.0), show('\0') })); }
	// arrays and std tuples take part
	sprout::array<int, 3> arr = {{ n, 1, 2 }}; CHECK_EQ(lst(arr), (VS{ show(n), show(1), show(2) })); CHECK_EQ(lst(st::push_back(arr, 7)), (VS{ show(n), show(1), show(2), show(7) })); CHECK_EQ(lst(st::pop_front(arr)), (VS{ show(1), show(2) }));
	CHECK_EQ(lst(std::make_pair(n, w)), (VS{ show(n), show(w) })); CHECK_EQ(lst(s), base);
	g.nontrivial(true);
}
struct Rec { int a; std::string b; Rec(int x, std::string const& y, double z, char q) : a(x), b(y + q + show(z)) {} };
struct Mix { template<class A, class B, class C, class D> std::string operator()(A const& a, B const& b, C const& c, D const& d) const { return show(a) + show(b) + show(c) + show(d); } };
struct Bump { void operator()(int& a, std::string& b, double&, char&) const { a ^= 1; b += "!"; } };
PROP(applying, 2) {
	S4 s = pick(g); T4 t = conv(s); std::string e = show(std::get<0>(s)) + show(std::get<1>(s)) + show(std::get<2>(s)) + show(std::get<3>(s));
	CHECK_EQ(sprout::apply(Mix(), t), e); CHECK_EQ(sprout::make_fused(Mix())(t), e); CHECK_EQ(sprout::apply(Mix(), conv(s)), e);
	Rec r = sprout::make_from_tuple<Rec>(t); CHECK(r.a == std::get<0>(s)); CHECK_EQ(r.b, std::get<1>(s) + std::get<3>(s) + show(std::get<2>(s)));
	sprout::apply(Bump(), t); CHECK(st::get<0>(t) == (std::get<0>(s) ^ 1) && st::get<1>(t) == std::get<1>(s) + "!");
	g.nontrivial(true);
}
struct Cell { std::unique_ptr<int> p; };
PROP(move_only, 1) {
	int v = num(g); sprout::tuple<std::unique_ptr<int>, int> t(std::unique_ptr<int>(new int(v)), 3), u(std::move(t)); CHECK(!st::get<0>(t) && *st::get<0>(u) == v);
	sprout::tuple<std::unique_ptr<int>, int> w; w = std::move(u); CHECK(!st::get<0>(u) && *st::get<0>(w) == v && st::get<1>(w) == 3);
	std::unique_ptr<int> o = st::get<0>(std::move(w)); CHECK(*o == v && !st::get<0>(w));
	sprout::pair<std::unique_ptr<int>, int> p(std::move(o), 4), q(std::move(p)); CHECK(!p.first && *q.first == v); p = std::move(q); CHECK(!q.first && *p.first == v); p.swap(q); CHECK(!p.first && *q.first == v);
	g.nontrivial(true);
}
struct Sub { std::string operator()(std::string const& a, std::string const& b) const { return "(" + a + b + ")"; } };
struct Desc { bool operator()(int a, int b) const { return b < a; } };
PROP(utilities, 3) {
	int a = int(g.draw(4)), b = int(g.draw(4)), c = int(g.draw(4)), d = int(g.draw(4)); g.note("abcd", std::vector<int>{ a, b, c, d });
	std::string A = show(a), B = show(b), C = show(c);
	{ int x = a; CHECK_EQ(sprout::exchange(x, b), a); CHECK_EQ(x, b); std::string s = A; CHECK_EQ(sprout::exchange(s, B), A); CHECK_EQ(s, B); }
	CHECK_EQ((std::string((sprout::fold_by(Sub(), std::string("i")), A, B, C))), "(((i" + A + ")" + B + ")" + C + ")");
	CHECK_EQ((std::string((A, (B, (C, sprout::fold_by(Sub(), std::string("i"))))))), "(" + A + "(" + B + "(" + C + "i)))");
	CHECK_EQ(sprout::pack_get<0>(a, B, c), a); CHECK_EQ(sprout::pack_get<1>(a, B, c), B); CHECK_EQ(sprout::pack_get<2>(a, B, c), c); CHECK(&sprout::pack_get<2>(a, B, c) == &c); CHECK(&sprout::head_get(b, c) == &b);
	CHECK_EQ(bool(sprout::comp % a < b < c), a < b && b < c); CHECK_EQ(bool(sprout::comp % a <= b < c), a <= b && b < c); CHECK_EQ(bool(sprout::comp % a < b <= c), a < b && b <= c); CHECK_EQ(bool(sprout::comp % a <= b <= c <= d), a <= b && b <= c && c <= d);
	CHECK_EQ(bool(sprout::comp % a > b > c), a > b && b > c); CHECK_EQ(bool(sprout::comp % a >= b > c), a >= b && b > c); CHECK_EQ(bool(sprout::comp % a >= b >= c > d), a >= b && b >= c && c > d);
	CHECK_EQ(bool(sprout::comp % a == b == c), a == b && b == c); CHECK_EQ(bool(sprout::comp < a < b < c), a < b && b < c); CHECK_EQ(bool(sprout::comp <= a <= b), a <= b); CHECK_EQ(!(sprout::comp % a < b < c), !(a < b && b < c));
	std::less<int> ls; Desc ds;
	CHECK_EQ(bool(sprout::comp->*ls % a < b < c < d), a < b && b < c && c < d); CHECK_EQ(bool(sprout::comp->*ds % a < b < c), a > b && b > c); CHECK_EQ(bool(sprout::comp->*ds % a <= b < c), a >= b && b > c); CHECK_EQ(bool(sprout::comp->*ds % a < b <= c), a > b && b >= c); CHECK_EQ(bool(sprout::comp->*ds % a > b > c), a < b && b < c);
	CHECK_EQ(bool(sprout::comp->*ds % a >= b >= c), a <= b && b <= c);
	{
		int const* p = g.flag() ? &a : 0; int const* q = g.flag() ? &b : 0; bool eq = !p || !q ? !p && !q : a == b, lt = q && (!p || a < b), gt = p && (!q || b < a);
		CHECK_EQ(sprout::equal_pointees(p, q), eq); CHECK_EQ(sprout::not_equal_pointees(p, q), !eq); CHECK_EQ(sprout::less_pointees(p, q), lt); CHECK_EQ(sprout::greater_pointees(p, q), gt); CHECK_EQ(sprout::less_equal_pointees(p, q), !gt); CHECK_EQ(sprout::greater_equal_pointees(p, q), !lt);
		typedef int const* IP;
		CHECK_EQ(sprout::equal_pointees_t<IP>()(p, q), eq); CHECK_EQ(sprout::not_equal_pointees_t<IP>()(p, q), !eq); CHECK_EQ(sprout::less_pointees_t<IP>()(p, q), lt); CHECK_EQ(sprout::greater_pointees_t<IP>()(p, q), gt); CHECK_EQ(sprout::less_equal_pointees_t<IP>()(p, q), !gt); CHECK_EQ(sprout::greater_equal_pointees_t<IP>()(p, q), !lt);
	}
	g.nontrivial(a != b);
}
template<class A, class B> void saturate(G& g) {
	typedef typename std::common_type<A, B>::type T; A a = g.integer<A>(); B b = g.integer<B>();
	if (g.chance(1, 2)) { // near a product or sum boundary
		T lim = g.flag() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); if (a != 0 && !(std::is_signed<T>::value && a == A(-1))) b = B(lim / T(a)); b = B(typename std::make_unsigned<B>::type(b) + typename std::make_unsigned<B>::type(g.draw(3)) - 1u); }
	g.note("a", a); g.note("b", b);
	__int128 s = __int128(a) + b, p = __int128(a) * b, hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::min();
	CHECK_EQ(sprout::limited::plus(a, b), T(s > hi ? hi : s < lo ? lo : s)); CHECK_EQ(sprout::limited::multiplies(a, b), T(p > hi ? hi : p < lo ? lo : p));
	g.nontrivial(p > hi || p < lo || s > hi || s < lo);
}
PROP_INST(saturate_int, 2, saturate<int, int>)
PROP_INST(saturate_long, 2, saturate<long, long>)
PROP_INST(saturate_mixed, 1, saturate<int, long>)
PROP_INST(saturate_mixed2, 1, saturate<long, int>)
PROP_INST(saturate_unsigned, 1, saturate<unsigned, unsigned>)
