// V02: sprout::variant against an independent model {which, value}
#include "pbt.hpp"
#include <sstream>
#include <set>
#include <sprout/variant.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/tuple.hpp>
#include <sprout/string.hpp>
#include <sprout/utility/move.hpp>
using namespace pbt;

struct P2 {
	int a, b;
	P2() : a(0), b(0) {}
	P2(int x, int y) : a(x), b(y) {}
	P2(P2 const& o) : a(o.a), b(o.b) {}
	P2& operator=(P2 const& o) { a = o.a; b = o.b; return *this; }
	friend bool operator==(P2 const& l, P2 const& r) { return l.a == r.a && l.b == r.b; }
	friend bool operator<(P2 const& l, P2 const& r) { return l.a < r.a || (l.a == r.a && l.b < r.b); }
	friend std::ostream& operator<<(std::ostream& o, P2 const& p) { return o << "<" << p.a << "," << p.b << ">"; }
	friend std::size_t hash_value(P2 const& p) { return std::size_t(p.a * 100 + p.b); }
};
typedef sprout::variant<int, std::string, double, P2, char> V;

// model
struct M {
	int w; int i; std::string s; double d; P2 p; char c;
	M() : w(0), i(0), d(0), c(0) {}
	std::string text() const { std::ostringstream o; switch (w) { case 0: o << i; break; case 1: o << s; break; case 2: o << d; break; case 3: o << p; break; case 4: o << c; break; } return o.str(); }
	bool eq(M const& m) const { if (w != m.w) return false; switch (w) { case 0: return i == m.i; case 1: return s == m.s; case 2: return d == m.d; case 3: return p == m.p; } return c == m.c; }
	bool lt(M const& m) const { if (w != m.w) return w < m.w; switch (w) { case 0: return i < m.i; case 1: return s < m.s; case 2: return d < m.d; case 3: return p < m.p; } return c < m.c; }
	size_t hash() const { switch (w) { case 0: return sprout::to_hash(i); case 1: return sprout::to_hash(s); case 2: return sprout::to_hash(d); case 3: return hash_value(p); } return sprout::to_hash(c); }
};
static M pick(G& g) {
	M m; m.w = int(g.draw(5));
	switch (m.w) { case 0: m.i = g.flag() ? int(g.draw(3)) - 1 : int(g.draw(0)); break; case 1: m.s = g.str(g.flag() ? 2 : 40, std::string("ab")); break; case 2: m.d = double(int(g.draw(5)) - 2) / 4; break; case 3: m.p = P2(int(g.draw(3)), int(g.draw(3))); break; case 4: m.c = "abc"[g.draw(3)]; break; }
	return m;
}
static V build(M const& m) { switch (m.w) { case 0: return V(m.i); case 1: return V(m.s); case 2: return V(m.d); case 3: return V(m.p); } return V(m.c); }
template<class T> struct tag {};
struct Kind : sprout::static_visitor<int> { int operator()(int) const { return 0; } int operator()(std::string const&) const { return 1; } int operator()(double) const { return 2; } int operator()(P2 const&) const { return 3; } int operator()(char) const { return 4; } };
struct Show : sprout::static_visitor<std::string> { template<class T> std::string operator()(T const& t) const { std::ostringstream o; o << t; return o.str(); } };
struct Plain { typedef std::string result_type; template<class T> std::string operator()(T const& t) const { std::ostringstream o; o << t; return o.str(); } };	// result_type only
struct Free { template<class T> long operator()(T const&) const { return long(sizeof(T)); } };	// result deduced
struct Write : sprout::static_visitor<void> {	// mutates the held value in place
	M& m; explicit Write(M& x) : m(x) {}
	void operator()(int& x) const { x = m.i ^= 5; } void operator()(std::string& x) const { x += 'z'; m.s += 'z'; } void operator()(double& x) const { x += 1; m.d += 1; } void operator()(P2& x) const { ++x.b; ++m.p.b; } void operator()(char& x) const { x = m.c = 'q'; }
};
struct Twice : sprout::static_variant_visitor {	// result: a variant of each alternative's result
	int operator()(int x) const { return x / 2; } std::string operator()(std::string const& s) const { return s + s; } double operator()(double d) const { return -d; } int operator()(P2 const& p) const { return p.a; } char operator()(char c) const { return char(c + 1); }
};
struct Stateful : sprout::static_visitor<int> { int n; Stateful() : n(0) {} template<class T> int operator()(T const&) { return ++n; } };

static void observe(V& v, M const& m, char const* what) {
	V const& c = v;
	if (c.which() != m.w) fail(__FILE__, __LINE__, std::string(what) + ": which " + std::to_string(c.which()) + " expected " + std::to_string(m.w));
	CHECK(!c.empty());
	std::ostringstream o; o << c;
	if (o.str() != m.text()) fail(__FILE__, __LINE__, std::string(what) + ": holds " + o.str() + " expected " + m.text());
	switch (m.w) {
	case 0: CHECK(c.get<int>() == m.i && v.get<int>() == m.i && sprout::get<int>(c) == m.i && sprout::get<int>(v) == m.i && c.get_at<0>() == m.i && v.get_at<0>() == m.i && sprout::tuples::get<0>(c) == m.i && &sprout::tuples::get<0>(v) == &v.get<int>()); break;
	case 1: CHECK(c.get<std::string>() == m.s && v.get<std::string>() == m.s && sprout::get<std::string>(c) == m.s && sprout::get<std::string>(v) == m.s && c.get_at<1>() == m.s && v.get_at<1>() == m.s && sprout::tuples::get<1>(c) == m.s); break;
	case 2: CHECK(c.get<double>() == m.d && v.get<double>() == m.d && sprout::get<double>(c) == m.d && sprout::get<double>(v) == m.d && c.get_at<2>() == m.d && v.get_at<2>() == m.d && sprout::tuples::get<2>(c) == m.d); break;
	case 3: CHECK(c.get<P2>() == m.p && v.get<P2>() == m.p && sprout::get<P2>(c) == m.p && sprout::get<P2>(v) == m.p && c.get_at<3>() == m.p && v.get_at<3>() == m.p && sprout::tuples::get<3>(c) == m.p); break;
	case 4: CHECK(c.get<char>() == m.c && v.get<char>() == m.c && sprout::get<char>(c) == m.c && sprout::get<char>(v) == m.c && c.get_at<4>() == m.c && v.get_at<4>() == m.c && sprout::tuples::get<4>(c) == m.c); break;
	}
	CHECK_EQ(sprout::apply_visitor(Kind(), c), m.w); CHECK_EQ(sprout::apply_visitor(Kind(), v), m.w); CHECK_EQ(v.apply_visitor(Kind()), m.w);
	CHECK_EQ(sprout::apply_visitor(Show(), c), m.text()); CHECK_EQ(sprout::apply_visitor(Plain(), c), m.text()); CHECK_EQ(sprout::apply_visitor(sprout::as_visitor<std::string>(Show()), c), m.text());
	static const long sizes[] = { sizeof(int), sizeof(std::string), sizeof(double), sizeof(P2), sizeof(char) };
	CHECK_EQ(sprout::apply_visitor(Free(), c), sizes[m.w]);
	Stateful st; CHECK_EQ(sprout::apply_visitor(st, c), 1); CHECK_EQ(sprout::apply_visitor(st, v), 2); CHECK_EQ(st.n, 2);
	CHECK(c == c && c <= c && c >= c && !(c != c) && !(c < c) && !(c > c));
}
PROP(history, 8) {
	const int N = 3; V v[N]; M m[N]; std::string ops; unsigned kinds = 0;
	for (int i = 0; i < N; ++i) observe(v[i], m[i], "default");
	size_t steps = 1 + g.size(24);
	for (size_t k = 0; k < steps; ++k) {
		int i = int(g.draw(N)), j = int(g.draw(N)), op = int(g.draw(12)); M x = pick(g);
		g.note("op", std::to_string(op) + ":" + std::to_string(i) + std::to_string(j) + " " + std::to_string(x.w) + "=" + x.text());
		V const& cj = v[j];
		switch (op) {
		case 0: case 1: switch (x.w) { case 0: v[i] = x.i; break; case 1: v[i] = x.s; break; case 2: v[i] = x.d; break; case 3: v[i] = x.p; break; case 4: v[i] = x.c; break; } m[i] = x; break;
		case 2: switch (x.w) { case 0: v[i] = int(x.i); break; case 1: v[i] = std::string(x.s); break; case 2: v[i] = double(x.d); break; case 3: v[i] = P2(x.p); break; case 4: v[i] = char(x.c); break; } m[i] = x; break;
		case 3: { M const& cx = x; switch (x.w) { case 0: v[i] = cx.i; break; case 1: v[i] = cx.s; break; case 2: v[i] = cx.d; break; case 3: v[i] = cx.p; break; case 4: v[i] = cx.c; break; } m[i] = x; break; }
		case 4: v[i] = cj; m[i] = m[j]; break;
		case 5: v[i] = build(x); m[i] = x; break;
		case 6: v[i].swap(v[j]); std::swap(m[i], m[j]); break;
		case 7: { V t(cj); observe(t, m[j], "copy"); V u(std::move(t)); observe(u, m[j], "moved"); v[i] = std::move(u); m[i] = m[j]; break; }
		case 8: sprout::apply_visitor(Write(m[i]), v[i]); break;
		case 9: switch (m[i].w) { case 0: v[i].get<int>() = x.i; m[i].i = x.i; break; case 1: sprout::get<std::string>(v[i]) = x.s; m[i].s = x.s; break; case 2: v[i].get_at<2>() = x.d; m[i].d = x.d; break; case 3: sprout::tuples::get<3>(v[i]) = x.p; m[i].p = x.p; break; case 4: v[i].get<char>() = x.c; m[i].c = x.c; break; } break;
		case 10: { using std::swap; swap(v[i], v[j]); std::swap(m[i], m[j]); break; }
		case 11: { V& lv = v[j]; V t(lv); observe(t, m[j], "copy of an lvalue"); v[i] = lv; m[i] = m[j]; break; }
		}
		for (int q = 0; q < N; ++q) { observe(v[q], m[q], "slot"); kinds |= 1u << m[q].w; }
	}
	g.nontrivial(steps >= 4 && (kinds & (kinds - 1)));
}
PROP(order, 3) {
	M a = pick(g), b = g.chance(1, 3) ? a : pick(g); V x = build(a), y = build(b);
	if (g.flag()) { M z = pick(g); V t = build(z); t = x; x = t; }	// the other alternatives' leftovers must not show
	g.note("a", std::to_string(a.w) + "=" + a.text()); g.note("b", std::to_string(b.w) + "=" + b.text());
	bool eq = a.eq(b), lt = a.lt(b), gt = b.lt(a);
	CHECK_EQ(x == y, eq); CHECK_EQ(x != y, !eq); CHECK_EQ(x < y, lt); CHECK_EQ(x > y, gt); CHECK_EQ(x <= y, !gt); CHECK_EQ(x >= y, !lt);
	if (eq) { CHECK_EQ(sprout::to_hash(x), sprout::to_hash(y)); }
	CHECK_EQ(hash_value(x), sprout::hash_combine(a.hash(), a.w)); CHECK_EQ(std::hash<V>()(x), sprout::to_hash(x));
	std::set<V> s; s.insert(x); s.insert(y); s.insert(x); CHECK_EQ(s.size(), size_t(eq ? 1 : 2));
	g.nontrivial(a.w == b.w);
}
PROP(visit_to_variant, 2) {
	M a = pick(g); V x = build(a); V const& c = x;
	auto r = sprout::apply_visitor(Twice(), c);
	typedef sprout::variant<int, std::string, double, int, char> R;
	static_assert(std::is_same<decltype(r), R>::value, "");
	std::ostringstream o; o << r;
	M e; switch (a.w) { case 0: e.i = a.i / 2; break; case 1: e.w = 1; e.s = a.s + a.s; break; case 2: e.w = 2; e.d = -a.d; break; case 3: e.i = a.p.a; break; case 4: e.w = 4; e.c = char(a.c + 1); break; }
	CHECK_EQ(r.which(), e.w); CHECK_EQ(o.str(), e.text());
	auto w = sprout::apply_visitor(sprout::as_variant_visitor(Twice()), c); static_assert(std::is_same<decltype(w), R>::value, ""); CHECK(w == r);
	g.nontrivial(true);
}
PROP(repeated_type, 1) {	// with a repeated type the first alternative of that type is taken
	typedef sprout::variant<int, long, int> R; int k = int(g.draw(0)); long l = long(g.draw(0));
	R a(k), b(l), c(k); CHECK(a.which() == 0 && a.get<int>() == k && b.which() == 1 && b.get<long>() == l && a == c && a < b);
	g.nontrivial(true);
}
PROP(statics, 0.2) {
	static_assert(sprout::tuples::tuple_size<V>::value == 5, ""); static_assert(std::is_same<sprout::tuples::tuple_element<1, V>::type, std::string>::value, ""); static_assert(std::is_same<sprout::tuples::tuple_element<4, V>::type, char>::value, "");
	int k = int(g.draw(0)); typedef sprout::variant<int> S; S s(k), t; CHECK(s.which() == 0 && s.get<int>() == k && t.get<int>() == 0); CHECK_EQ(sprout::apply_visitor(Kind(), s), 0); t = s; CHECK(t == s);
	g.nontrivial(true);
}
struct CK : sprout::static_visitor<int> { constexpr int operator()(int x) const { return x; } constexpr int operator()(double d) const { return int(d * 2); } };
constexpr sprout::variant<int, double> cv(2.5); static_assert(cv.which() == 1 && cv.get<double>() == 2.5 && sprout::apply_visitor(CK(), cv) == 5 && cv == cv && !(cv < cv), "");
