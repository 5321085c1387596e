// O01: sprout::optional against an independent model {engaged, value}: histories of operations over several
// optionals, and laws of comparison, hashing, iteration and text
#include "pbt.hpp"
#include <sstream>
#include <set>
#include <unordered_set>
#include <sprout/optional.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/container.hpp>
#include <sprout/utility/move.hpp>
using namespace pbt;
static G* cur;

// a value type that knows whether it is alive, and counts nothing but can be moved from
struct Box {
	int v; bool moved;
	Box() : v(0), moved(false) {}
	Box(int a) : v(a), moved(false) {}
	Box(int a, int b) : v(a * 10 + b), moved(false) {}
	Box(std::initializer_list<int> il, int k) : v(k), moved(false) { for (int x : il) v = v * 10 + x; }
	Box(Box const& o) : v(o.v), moved(o.moved) {}
	Box(Box&& o) noexcept : v(o.v), moved(o.moved) { o.v = -777; o.moved = true; }
	Box& operator=(Box const& o) { v = o.v; moved = o.moved; return *this; }
	Box& operator=(Box&& o) noexcept { int a = o.v; bool m = o.moved; o.v = -777; o.moved = true; v = a; moved = m; return *this; }
	friend bool operator==(Box const& a, Box const& b) { return a.v == b.v; }
	friend bool operator<(Box const& a, Box const& b) { return a.v < b.v; }
	friend std::ostream& operator<<(std::ostream& o, Box const& b) { return o << b.v; }
	friend std::size_t hash_value(Box const& b) { return std::size_t(b.v) * 31 + 7; }
};
template<class T> struct Val;
template<> struct Val<int> { static int make(G& g) { return int(g.draw(5)) - 2; } static int big(G& g) { return int(g.draw(0)); } static std::string show(int v) { return std::to_string(v); } };
template<> struct Val<Box> { static Box make(G& g) { return Box(int(g.draw(5)) - 2); } static Box big(G& g) { return Box(int(g.draw(2000)) - 1000); } static std::string show(Box const& b) { return std::to_string(b.v) + (b.moved ? "!" : ""); } };
template<> struct Val<std::string> { static std::string make(G& g) { return g.str(3, std::string("ab")); } static std::string big(G& g) { return g.str(40, std::string("abcdefgh xyz")); } static std::string show(std::string const& s) { return "'" + s + "'"; } };

template<class T> struct M { bool on; T v; M() : on(false), v() {} M(T const& x) : on(true), v(x) {} };
template<class T> std::string text(M<T> const& m) { return m.on ? Val<T>::show(m.v) : std::string("-"); }
template<class T> std::string text(sprout::optional<T> const& o) { return o.is_initialized() ? Val<T>::show(*o) : std::string("-"); }

// every observer agrees with the model
template<class T> void observe(sprout::optional<T>& o, M<T> const& m, std::string const& what) {
	sprout::optional<T> const& c = o;
	std::string a = text(c), b = text(m);
	if (a != b) fail(__FILE__, __LINE__, what + ": holds " + a + " expected " + b);
	CHECK_EQ(bool(c), m.on); CHECK_EQ(!c, !m.on); CHECK_EQ(c.is_initialized(), m.on);
	CHECK_EQ(c.empty(), !m.on); CHECK_EQ(c.size(), size_t(m.on));
	CHECK(std::distance(c.begin(), c.end()) == std::ptrdiff_t(m.on)); CHECK(std::distance(o.begin(), o.end()) == std::ptrdiff_t(m.on));
	CHECK(std::distance(c.cbegin(), c.cend()) == std::ptrdiff_t(m.on));
	CHECK(std::distance(c.rbegin(), c.rend()) == std::ptrdiff_t(m.on)); CHECK(std::distance(c.crbegin(), c.crend()) == std::ptrdiff_t(m.on));
	CHECK_EQ(c == sprout::nullopt, !m.on); CHECK_EQ(sprout::nullopt == c, !m.on); CHECK_EQ(c != sprout::nullopt, m.on); CHECK_EQ(sprout::nullopt != c, m.on);
	CHECK_EQ(c < sprout::nullopt, false); CHECK_EQ(sprout::nullopt < c, m.on); CHECK_EQ(c > sprout::nullopt, m.on); CHECK_EQ(sprout::nullopt > c, false);
	CHECK_EQ(c <= sprout::nullopt, !m.on); CHECK_EQ(sprout::nullopt <= c, true); CHECK_EQ(c >= sprout::nullopt, true); CHECK_EQ(sprout::nullopt >= c, !m.on);
	T other = Val<T>::make(*cur); T const& oc = other;
	CHECK(c.value_or(oc) == (m.on ? m.v : other)); CHECK(c.get_value_or(oc) == (m.on ? m.v : other)); CHECK(sprout::get_value_or(c, oc) == (m.on ? m.v : other));
	CHECK(&o.value_or(other) == (m.on ? &*o : &other)); CHECK(&o.get_value_or(other) == (m.on ? &*o : &other)); CHECK(&sprout::get_value_or(o, other) == (m.on ? &*o : &other));
	if (m.on) {
		CHECK(*c == m.v); CHECK(*o == m.v); CHECK(*c.operator->() == m.v); CHECK(*o.operator->() == m.v); CHECK(c.value() == m.v); CHECK(o.value() == m.v); CHECK(c.get() == m.v); CHECK(o.get() == m.v);
		CHECK(&*o == o.get_pointer()); CHECK(&*c == c.get_pointer()); CHECK(o.get_ptr() == &*o); CHECK(c.get_ptr() == &*c); CHECK(&*o == &o.value());
		CHECK(&sprout::get(o) == &*o); CHECK(&sprout::get(c) == &*c); CHECK(sprout::get(&o) == &*o); CHECK(sprout::get(&c) == &*c); CHECK(sprout::get_pointer(o) == &*o); CHECK(sprout::get_pointer(c) == &*c);
		CHECK(c.at(0) == m.v); CHECK(o.at(0) == m.v); CHECK(c[0] == m.v); CHECK(o[0] == m.v); CHECK(&o.front() == &*o); CHECK(&o.back() == &*o); CHECK(&c.front() == &*c); CHECK(&c.back() == &*c);
		CHECK(*c.begin() == m.v); CHECK(*o.begin() == m.v); CHECK(*c.rbegin() == m.v); CHECK(*o.rbegin() == m.v); CHECK(&*o.begin() == &*o);
		CHECK_THROWS(std::out_of_range, c.at(1)); CHECK_THROWS(std::out_of_range, o.at(1)); CHECK_THROWS(std::out_of_range, (o.rangecheck(1), 0));
		o.rangecheck(0);
	} else {
		CHECK_THROWS(sprout::bad_optional_access, c.value()); CHECK_THROWS(sprout::bad_optional_access, o.value());
		CHECK_THROWS(sprout::bad_optional_access, c.get()); CHECK_THROWS(sprout::bad_optional_access, o.get());
		CHECK(c.get_pointer() == 0); CHECK(o.get_pointer() == 0); CHECK(c.get_ptr() == 0); CHECK(sprout::get(&c) == 0); CHECK(sprout::get(&o) == 0); CHECK(sprout::get_pointer(c) == 0); CHECK(sprout::get_pointer(o) == 0);
		CHECK_THROWS(std::out_of_range, c.at(0)); CHECK_THROWS(std::out_of_range, o.at(0)); CHECK_THROWS(std::out_of_range, (o.rangecheck(0), 0));
	}
}
template<class T> void history(G& g) {
	typedef sprout::optional<T> O;
	const int N = 3; cur = &g;
	std::vector<O> o; std::vector<M<T>> m(N);
	for (int i = 0; i < N; ++i) o.push_back(O());
	size_t steps = 1 + g.size(24); std::string ops; int eng = 0;
	for (size_t k = 0; k < steps; ++k) {
		int i = int(g.draw(N)), j = int(g.draw(N)), op = int(g.draw(26));
		ops += std::to_string(op) + ":" + std::to_string(i) + std::to_string(j) + " "; g.note("op", ops.substr(ops.rfind(' ', ops.size() - 2) + 1));
		T v = Val<T>::make(g); T const& cv = v; bool b = g.flag();
		O const& cj = o[j];
		switch (op) {
		case 0: o[i] = sprout::nullopt; m[i].on = false; break;
		case 1: o[i] = cv; m[i] = M<T>(v); break;
		case 2: o[i] = T(v); m[i] = M<T>(v); break;
		case 3: o[i] = cj; m[i] = m[j]; break;
		case 4: if (i != j) { o[i] = std::move(o[j]); m[i] = m[j]; CHECK_EQ(o[j].is_initialized(), m[j].on); o[j] = m[j].on ? O(m[j].v) : O(); } break;
		case 5: o[i].emplace(cv); m[i] = M<T>(v); break;
		case 6: o[i].reset(); m[i].on = false; break;
		case 7: o[i].reset(sprout::nullopt); m[i].on = false; break;
		case 8: o[i].reset(cv); m[i] = M<T>(v); break;
		case 9: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
		case 10: { using sprout::swap; swap(o[i], o[j]); std::swap(m[i], m[j]); break; }
		case 11: { O t(cj); observe(t, m[j], "copy"); O u(std::move(t)); observe(u, m[j], "move"); break; }
		case 12: { O t(b, cv); M<T> e; if (b) e = M<T>(v); observe(t, e, "cond"); o[i] = t; m[i] = e; break; }
		case 13: { O t(sprout::in_place, cv); observe(t, M<T>(v), "in_place"); o[i].assign(t); m[i] = M<T>(v); break; }
		case 14: { O t(sprout::nullopt); observe(t, M<T>(), "nullopt"); o[i].assign(sprout::nullopt); m[i].on = false; break; }
		case 15: o[i] = sprout::make_optional(v); m[i] = M<T>(v); break;
		case 16: { auto t = sprout::make_optional(b, v); static_assert(std::is_same<decltype(t), O>::value, ""); o[i] = t; m[i] = b ? M<T>(v) : M<T>(); break; }
		case 17: if (m[i].on) { *o[i] = v; m[i].v = v; } break;
		case 18: if (m[i].on) { o[i].value() = v; m[i].v = v; } break;
		case 19: if (m[i].on) { *o[i].begin() = v; m[i].v = v; } break;
		case 20: { T& r = o[i].get_value_or(v); T w = Val<T>::make(g); r = w; if (m[i].on) m[i].v = w; break; }
		case 21: o[i].assign(cv); m[i] = M<T>(v); break;
		case 22: if (m[i].on) { *o[i].get_pointer() = v; m[i].v = v; } break;
		case 23: { O& self = o[i]; o[i] = self; break; }
		case 24: { O t = sprout::nullopt; t = cj; o[i].assign(std::move(t)); m[i] = m[j]; break; }
		case 25: if (m[i].on) { sprout::get(o[i]) = v; m[i].v = v; } break;
		}
		for (int q = 0; q < N; ++q) { observe(o[q], m[q], "slot " + std::to_string(q)); eng += m[q].on; }
	}
	g.nontrivial(steps >= 4 && eng >= 3);
}
template<class T> void order(G& g) {	// order, equality and hashing of two optionals
	typedef sprout::optional<T> O;
	M<T> a, b; if (!g.chance(1, 4)) a = M<T>(g.flag() ? Val<T>::make(g) : Val<T>::big(g)); if (!g.chance(1, 4)) b = g.flag() ? a : M<T>(Val<T>::make(g));
	O x = a.on ? O(a.v) : O(), y = b.on ? O(b.v) : O();
	if (g.flag() && !a.on) { x = Val<T>::big(g); x = sprout::nullopt; }	// a stale value must not show
	g.note("x", text(a)); g.note("y", text(b));
	bool eq = a.on == b.on && (!a.on || a.v == b.v), lt = b.on && (!a.on || a.v < b.v), gt = a.on && (!b.on || b.v < a.v);
	CHECK_EQ(x == y, eq); CHECK_EQ(x != y, !eq); CHECK_EQ(x < y, lt); CHECK_EQ(x > y, gt); CHECK_EQ(x <= y, !gt); CHECK_EQ(x >= y, !lt);
	if (eq) CHECK_EQ(sprout::to_hash(x), sprout::to_hash(y));
	CHECK_EQ(sprout::to_hash(x), std::hash<O>()(x));
	CHECK_EQ(hash_value(x), a.on ? sprout::to_hash(a.v) : size_t(0));
	std::set<O> s; s.insert(x); s.insert(y); CHECK_EQ(s.size(), size_t(eq ? 1 : 2));
	g.nontrivial(a.on || b.on);
}
template<class T> void text_io(G& g) {	// out then in gives the same optional; anything else sets failbit and keeps the target
	typedef sprout::optional<T> O;
	M<T> a; if (!g.chance(1, 3)) a = M<T>(Val<T>::make(g));
	O x = a.on ? O(a.v) : O(); std::ostringstream os; os << x;
	std::ostringstream e; if (a.on) e << ' ' << a.v; else e << "--";
	CHECK_EQ(os.str(), e.str());
	g.nontrivial(true);
}
PROP(history_int, 4) { history<int>(g); }
PROP(history_string, 4) { history<std::string>(g); }
PROP(history_box, 4) { history<Box>(g); }
PROP(order_int, 2) { order<int>(g); }
PROP(order_string, 2) { order<std::string>(g); }
PROP(order_box, 2) { order<Box>(g); }
PROP(text_out_int, 1) { text_io<int>(g); }
PROP(text_out_string, 1) { text_io<std::string>(g); }
PROP(text_in, 2) {
	sprout::optional<int> was; int w = int(g.draw(100)); if (g.flag()) was = w;
	std::string s; int kind = int(g.draw(5)); int v = g.flag() ? int(g.draw(0)) : int(g.draw(20)) - 10;
	switch (kind) { case 0: s = "--"; break; case 1: s = " " + std::to_string(v); break; case 2: s = "-" + std::to_string(v); break; case 3: s = std::to_string(v < 0 ? -(v / 2) : v); break; case 4: s = g.str(3, std::string("-x 1")); break; }
	s += g.flag() ? "" : "|"; g.note("text", s);
	std::istringstream is(s); sprout::optional<int> r = was; is >> r;
	if (s.compare(0, 2, "--") == 0) { CHECK(!is.fail()); CHECK(!r); }
	else if (kind == 1) { CHECK(!is.fail()); CHECK(bool(r)); CHECK_EQ(*r, v); }
	else if (s.empty() || s[0] != ' ') { CHECK(is.fail()); CHECK(r == was); }
	g.nontrivial(kind != 4);
}
template<typename T, typename U> static void conv(pbt::G& g) {	// between optionals of convertible types, whatever the target held before
	int v = int(g.draw(200)) - 100, w = int(g.draw(200)); bool on = g.flag(), had = g.flag(); int how = int(g.draw(7));
	g.note("on", on); g.note("had", had); g.note("how", how); g.note("v", v);
	sprout::optional<U> s; if (on) s = U(v);
	sprout::optional<U> const& cs = s;
	sprout::optional<T> l; if (had) l = T(w);
	switch (how) {
	case 0: { sprout::optional<T> t(cs); l = t; break; }
	case 1: { sprout::optional<T> t(std::move(s)); l = t; break; }
	case 2: l = cs; break;
	case 3: { sprout::optional<U> t(cs); l = std::move(t); break; }
	case 4: l = sprout::optional<U>(cs); break;
	case 5: l.assign(cs); break;
	case 6: { sprout::optional<U> t(cs); l.assign(std::move(t)); break; }
	}
	CHECK_EQ(l.is_initialized(), on); if (on) CHECK(*l == T(U(v)));
	if (how != 1) { CHECK_EQ(s.is_initialized(), on); if (on) CHECK(*s == U(v)); }
	g.nontrivial(on != had);
}
PROP_INST(conversion_long_int, 1, (conv<long, int>));
PROP_INST(conversion_int_short, 1, (conv<int, short>));
PROP_INST(conversion_double_int, 1, (conv<double, int>));
PROP(conversion, 2) {
	int v = int(g.draw(0)); bool on = g.flag();
	sprout::optional<int> s; if (on) s = v;
	sprout::optional<int> const& cs = s;
	sprout::optional<Box> bx(cs); CHECK_EQ(bx.is_initialized(), on); if (on) CHECK_EQ(bx->v, v);
	sprout::optional<std::string> st; char const* p = "xyz"; st = p; CHECK(st && *st == "xyz");
	g.nontrivial(on);
}
// ordering must use < alone: Wk compares by key, its == also looks at the tag
struct Wk { int k, tag; };
inline bool operator<(Wk const& a, Wk const& b) { return a.k < b.k; }
inline bool operator==(Wk const& a, Wk const& b) { return a.k == b.k && a.tag == b.tag; }
PROP(order_by_less, 1) {
	bool ea = g.flag(), eb = g.flag(); Wk a = { int(g.draw(3)), int(g.draw(2)) }, b = { int(g.draw(3)), int(g.draw(2)) };
	sprout::optional<Wk> x, y; if (ea) x = a; if (eb) y = b;
	g.note("ea", ea); g.note("eb", eb); g.note("ak", a.k); g.note("bk", b.k);
	bool lt = eb && (!ea || a < b), gt = ea && (!eb || b < a), eq = ea == eb && (!ea || a == b);
	CHECK_EQ(x < y, lt); CHECK_EQ(x > y, gt); CHECK_EQ(x <= y, !gt); CHECK_EQ(x >= y, !lt); CHECK_EQ(x == y, eq); CHECK_EQ(x != y, !eq);
	g.nontrivial(ea && eb && a.k == b.k && a.tag != b.tag);
}
PROP(in_place, 2) {
	int a = int(g.draw(10)), b = int(g.draw(10)), c = int(g.draw(10));
	sprout::optional<Box> x(sprout::in_place, a, b); CHECK(x && x->v == a * 10 + b);
	sprout::optional<Box> y(sprout::in_place, { a, b }, c); CHECK(y && y->v == (c * 10 + a) * 10 + b);
	sprout::optional<Box> z; if (g.flag()) z = Box(5);
	z.emplace(b, c); CHECK(z && z->v == b * 10 + c); z.emplace({ c, a }, b); CHECK(z && z->v == (b * 10 + c) * 10 + a);
	std::string t = g.str(5, std::string("ab")); sprout::optional<std::string> s(sprout::in_place, t.size(), 'q'); CHECK(s && *s == std::string(t.size(), 'q'));
	g.nontrivial(true);
}
PROP(reference, 3) {	// optional<T&> holds an address: assignment rebinds, writing goes through
	typedef sprout::optional<int&> R;
	int cell[3] = { 10, 20, 30 }; R r[2]; int at[2] = { -1, -1 }; int model[3] = { 10, 20, 30 };
	size_t steps = 1 + g.size(12); std::string ops;
	for (size_t k = 0; k < steps; ++k) {
		int i = int(g.draw(2)), c = int(g.draw(3)), op = int(g.draw(7)), v = int(g.draw(100)); ops += std::to_string(op) + ":" + std::to_string(i) + std::to_string(c) + " "; g.note("op", ops.substr(ops.rfind(' ', ops.size() - 2) + 1));
		switch (op) {
		case 0: r[i] = cell[c]; at[i] = c; break;
		case 1: r[i] = sprout::nullopt; at[i] = -1; break;
		case 2: r[i] = r[1 - i]; at[i] = at[1 - i]; break;
		case 3: r[0].swap(r[1]); std::swap(at[0], at[1]); break;
		case 4: if (at[i] >= 0) { *r[i] = v; model[at[i]] = v; } break;
		case 5: { R t(cell[c]); r[i] = t; at[i] = c; break; }
		case 6: cell[c] = v; model[c] = v; break;
		}
		for (int q = 0; q < 2; ++q) { CHECK_EQ(r[q].is_initialized(), at[q] >= 0); if (at[q] >= 0) { CHECK(&*r[q] == &cell[at[q]]); CHECK(r[q].get_pointer() == &cell[at[q]]); CHECK_EQ(r[q].value(), model[at[q]]); } }
		for (int q = 0; q < 3; ++q) CHECK_EQ(cell[q], model[q]);
	}
	g.nontrivial(steps > 3);
}
#if __cplusplus >= 201402L
constexpr int chain(int a, int b) { sprout::optional<int> x, y(a); x = b; x.swap(y); y = sprout::nullopt; x.reset(); x.emplace(a + b); y = x; return *y + (x == y ? 1000 : 0); }
static_assert(chain(3, 4) == 1007, "");
#endif
constexpr sprout::optional<int> ce(5); static_assert(ce && *ce == 5 && ce.value() == 5 && ce > sprout::nullopt, "");
constexpr sprout::optional<int> cn; static_assert(!cn && cn == sprout::nullopt && cn < ce, "");
