// F01: function objects, binders, negators, member adaptors, bind and hash
#include "pbt.hpp"
#include <sprout/functional.hpp>
#include <sprout/array.hpp>
#include <sprout/tuple.hpp>
#include <sprout/utility.hpp>
#include <sprout/complex.hpp>
#include <sprout/functional/hash/std/array.hpp>
#include <sprout/functional/hash/std/utility.hpp>
#include <sprout/functional/hash/std/complex.hpp>
#include <array>
#include <functional>
#include <memory>
#include <set>
#include <map>
#include <tuple>
#include <complex>
#include <limits>

using namespace pbt;

template<typename T> struct num { static T draw(G& g) { return static_cast<T>(g.range(-100, 100)); } };
template<> struct num<double> { static double draw(G& g) { return g.range(-400, 400) / 8.0; } };
template<> struct num<unsigned> { static unsigned draw(G& g) { return g.chance(1, 3) ? g.integer<unsigned>() : static_cast<unsigned>(g.draw(40)); } };
template<> struct num<unsigned long long> { static unsigned long long draw(G& g) { return g.chance(1, 3) ? g.draw(0) : g.draw(40); } };

#define BIN(NAME, OP) { \
	auto e = x OP y; \
	CHECK_EQ(sprout::NAME<T>()(x, y), e); CHECK_EQ(sprout::NAME<>()(x, y), e); CHECK_EQ(sprout::NAME##_(x, y), e); \
	static_assert(std::is_same<decltype(sprout::NAME<>()(x, y)), decltype(x OP y)>::value, #NAME); \
	const sprout::NAME<> cf = {}; CHECK_EQ(cf(x, static_cast<short>(3)), (x OP static_cast<short>(3))); }
#define BIN_(NAME, OP) { auto e = x OP y; CHECK_EQ(sprout::NAME<>()(x, y), e); CHECK_EQ(sprout::NAME##_(x, y), e); static_assert(std::is_same<decltype(sprout::NAME<>()(x, y)), decltype(x OP y)>::value, #NAME); }
#define UN(NAME, OP) { \
	auto e = OP x; CHECK_EQ(sprout::NAME<T>()(x), e); CHECK_EQ(sprout::NAME<>()(x), e); CHECK_EQ(sprout::NAME##_(x), e); \
	static_assert(std::is_same<decltype(sprout::NAME<>()(x)), decltype(OP x)>::value, #NAME); }
#define ASG(NAME, OP) { \
	T a = x, b = x; T& r = (b OP y); T& s = sprout::NAME<>()(a, y); (void)r; \
	CHECK_EQ(a, b); CHECK(&s == &a); T c = x; sprout::NAME##_(c, y); CHECK_EQ(c, b); }

template<typename T> static void arith(G& g) {
	T x = num<T>::draw(g), y = num<T>::draw(g);
	g.note("x", x); g.note("y", y); g.nontrivial(x != y);
	BIN(plus, +) BIN(minus, -) BIN(multiplies, *)
	if (y != T()) { BIN(divides, /) ASG(divides_assign, /=) }
	BIN(equal_to, ==) BIN(not_equal_to, !=) BIN(less, <) BIN(greater, >) BIN(less_equal, <=) BIN(greater_equal, >=)
	BIN(logical_and, &&) BIN(logical_or, ||)
	UN(negate, -) UN(posite, +) UN(logical_not, !)
	ASG(plus_assign, +=) ASG(minus_assign, -=) ASG(multiplies_assign, *=) ASG(assign, =)
	{ T a = x; T& r = sprout::pre_increment<>()(a); CHECK(&r == &a); CHECK_EQ(a, static_cast<T>(x + 1)); }
	{ T a = x; T& r = sprout::pre_decrement<>()(a); CHECK(&r == &a); CHECK_EQ(a, static_cast<T>(x - 1)); }
	{ T a = x; CHECK_EQ(sprout::post_increment<>()(a), x); CHECK_EQ(a, static_cast<T>(x + 1)); }
	{ T a = x; CHECK_EQ(sprout::post_decrement<>()(a), x); CHECK_EQ(a, static_cast<T>(x - 1)); }
	{ T a = x; CHECK_EQ(sprout::pre_increment_(a), static_cast<T>(x + 1)); CHECK_EQ(sprout::post_increment_(a), static_cast<T>(x + 1)); CHECK_EQ(sprout::pre_decrement_(a), static_cast<T>(x + 1)); CHECK_EQ(sprout::post_decrement_(a), static_cast<T>(x + 1)); CHECK_EQ(a, x); }
	{ T* p = sprout::address_of<>()(x); CHECK(p == &x); CHECK(&sprout::dereference<>()(p) == &x); CHECK(sprout::address_of_(x) == &x); CHECK_EQ(sprout::dereference_(p), x); }
}
PROP_INST(arith_int, 3, arith<int>)
PROP_INST(arith_long, 1, arith<long long>)
PROP_INST(arith_unsigned, 3, arith<unsigned>)
PROP_INST(arith_ull, 1, arith<unsigned long long>)
PROP_INST(arith_double, 2, arith<double>)

template<typename T> static void bits(G& g) {
	T x = num<T>::draw(g), y = num<T>::draw(g);
	g.note("x", x); g.note("y", y); g.nontrivial(x != y);
	BIN(bit_and, &) BIN(bit_or, |) BIN(bit_xor, ^) UN(bit_not, ~)
	ASG(bit_and_assign, &=) ASG(bit_or_assign, |=) ASG(bit_xor_assign, ^=)
	if (y != T()) { BIN(modulus, %) ASG(modulus_assign, %=) }
	if (x < T()) x = T() - x;
	y = static_cast<T>(g.draw(20));
	x = static_cast<T>(x & 1023);
	BIN_(shift_left, <<) BIN_(shift_right, >>) ASG(shift_left_assign, <<=) ASG(shift_right_assign, >>=)
}
PROP_INST(bits_int, 3, bits<int>)
PROP_INST(bits_unsigned, 2, bits<unsigned>)
PROP_INST(bits_ull, 1, bits<unsigned long long>)

PROP(various, 4) {
	int x = static_cast<int>(g.range(-50, 50)), y = static_cast<int>(g.range(-50, 50)); bool b = g.flag();
	g.note("x", x); g.note("y", y); g.note("b", b); g.nontrivial(x != y);
	CHECK_EQ(sprout::cond<>()(b, x, y), b ? x : y); CHECK_EQ(sprout::cond_(b, x, y), b ? x : y);
	{ int& r = sprout::cond<>()(b, x, y); CHECK(&r == (b ? &x : &y)); }
	{ int& r = sprout::comma<>()(x, y); CHECK(&r == &y); CHECK_EQ(sprout::comma_(x, y), y); }
	std::vector<int> v; std::size_t n = 1 + g.size(8); for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<int>(g.range(-9, 9)));
	std::size_t i = g.draw(n); g.note("i", i);
	CHECK(&sprout::subscript<>()(v, i) == &v[i]); CHECK_EQ(sprout::subscript_(v, i), v[i]);
	CHECK_EQ(sprout::call_fun<>()(std::minus<int>(), x, y), x - y); CHECK_EQ(sprout::call_fun_(std::minus<int>(), x, y), x - y);
	struct S { int a, b; int f(int k) const { return a * 3 + k; } } s = {x, y};
	int S::*pm = b ? &S::a : &S::b;
	CHECK(&sprout::member<>()(s, pm) == &(s.*pm)); CHECK(&sprout::member_pointer<>()(&s, pm) == &(s.*pm));
	CHECK_EQ(sprout::member_(s, pm), s.*pm); CHECK_EQ(sprout::member_pointer_(&s, pm), s.*pm);
	std::string p = g.str(6, std::string("ab")), q = g.str(6, std::string("ab")); g.note("p", p); g.note("q", q);
	CHECK_EQ(sprout::plus<>()(p, q), p + q); CHECK_EQ(sprout::less<>()(p, q), p < q); CHECK_EQ(sprout::plus<std::string>()(p, q), p + q);
	CHECK_EQ(sprout::greater_equal<>()(p, q.c_str()), p >= q); CHECK_EQ(sprout::equal_to<>()(p.c_str(), q), p == q);
	{ std::string t = p; sprout::plus_assign<>()(t, q); CHECK_EQ(t, p + q); sprout::assign_(t, q); CHECK_EQ(t, q); }
}

// a comparison that is neither symmetric nor reflexive-trivial, strict and transparent flavours
struct sub_t { int operator()(int a, int b) const { return a * 2 - b; } };
struct sub_strict { typedef int first_argument_type; typedef int second_argument_type; typedef int result_type; int operator()(int a, int b) const { return a * 2 - b; } };
struct odd_strict { typedef int argument_type; typedef bool result_type; bool operator()(int a) const { return a % 2 != 0; } };
struct odd_t { bool operator()(int a) const { return a % 2 != 0; } };
struct lt3 { bool operator()(int a, int b) const { return a / 3 < b / 3; } };
struct lt3_strict { typedef int first_argument_type; typedef int second_argument_type; typedef bool result_type; bool operator()(int a, int b) const { return a / 3 < b / 3; } };
static int twice_fn(int a) { return 2 * a + 1; }
static int mix_fn(int a, int b) { return a * 7 - b * 3; }

PROP(binders, 4) {
	int a = static_cast<int>(g.range(-50, 50)), b = static_cast<int>(g.range(-50, 50));
	g.note("a", a); g.note("b", b); g.nontrivial(a != b);
	CHECK_EQ(sprout::bind1st(sub_strict(), a)(b), a * 2 - b); CHECK_EQ(sprout::bind2nd(sub_strict(), a)(b), b * 2 - a);
	CHECK_EQ(sprout::bind1st(sub_t(), a)(b), a * 2 - b); CHECK_EQ(sprout::bind2nd(sub_t(), a)(b), b * 2 - a);
	CHECK_EQ(sprout::bind1st(sprout::minus<>(), a)(b), a - b); CHECK_EQ(sprout::bind2nd(sprout::minus<>(), a)(b), b - a);
	CHECK_EQ(sprout::bind1st(sprout::minus<int>(), a)(b), a - b); CHECK_EQ(sprout::bind2nd(sprout::minus<int>(), a)(b), b - a);
	{ int c = b; sprout::bind2nd(sprout::minus_assign<>(), a)(c); CHECK_EQ(c, b - a); }
	CHECK_EQ(sprout::bind1st_(sub_t(), +a)(b), a * 2 - b); CHECK_EQ(sprout::bind2nd_(sub_t(), +a)(b), b * 2 - a);
	CHECK_EQ(sprout::not1(odd_strict())(a), a % 2 == 0); CHECK_EQ(sprout::not1(odd_t())(a), a % 2 == 0);
	CHECK_EQ(sprout::not1(sprout::not1(odd_t()))(a), a % 2 != 0);
	CHECK_EQ(sprout::not2(lt3())(a, b), !lt3()(a, b)); CHECK_EQ(sprout::not2(lt3_strict())(a, b), !lt3()(a, b));
	bool eq = !lt3()(a, b) && !lt3()(b, a);
	CHECK_EQ(sprout::equiv(lt3())(a, b), eq); CHECK_EQ(sprout::equiv(lt3_strict())(a, b), eq); CHECK_EQ(sprout::equiv()(a, b), a == b);
	CHECK_EQ(sprout::ptr_fun(twice_fn)(a), twice_fn(a)); CHECK_EQ(sprout::ptr_fun(mix_fn)(a, b), mix_fn(a, b));
	CHECK_EQ(sprout::not1(sprout::bind2nd(sprout::less<int>(), a))(b), !(b < a));
	CHECK_EQ(sprout::bind1st(sprout::ptr_fun(mix_fn), a)(b), mix_fn(a, b)); CHECK_EQ(sprout::bind2nd(sprout::ptr_fun(mix_fn), a)(b), mix_fn(b, a));
}

struct Obj {
	int v;
	int get() const { return v; }
	int bump() { return v += 3; }
	int add(int k) const { return v * 10 + k; }
	int addm(int k) { v += k; return v * 2; }
	int three(int a, int b, int c) const { return v + a * 100 + b * 10 + c; }
	int& ref() { return v; }
};
PROP(members, 4) {
	int a = static_cast<int>(g.range(-50, 50)), b = static_cast<int>(g.range(-50, 50));
	g.note("a", a); g.note("b", b); g.nontrivial(a != b);
	Obj o = {a}; Obj const& co = o; std::shared_ptr<Obj> sp(new Obj(o));
	CHECK_EQ(sprout::mem_fun(&Obj::get)(&o), a); CHECK_EQ(sprout::mem_fun(&Obj::add)(&o, b), a * 10 + b);
	CHECK_EQ(sprout::mem_fun_ref(&Obj::get)(co), a); CHECK_EQ(sprout::mem_fun_ref(&Obj::add)(co, b), a * 10 + b);
	CHECK_EQ(sprout::mem_fn(&Obj::get)(o), a); CHECK_EQ(sprout::mem_fn(&Obj::get)(co), a); CHECK_EQ(sprout::mem_fn(&Obj::get)(&o), a); CHECK_EQ(sprout::mem_fn(&Obj::get)(&co), a); CHECK_EQ(sprout::mem_fn(&Obj::get)(sp), a);
	CHECK_EQ(sprout::mem_fn(&Obj::add)(co, b), a * 10 + b); CHECK_EQ(sprout::mem_fn(&Obj::add)(&co, b), a * 10 + b);
	CHECK_EQ(sprout::mem_fn(&Obj::three)(co, b, a, 4), a + b * 100 + a * 10 + 4);
	CHECK_EQ(sprout::mem_fn(&Obj::v)(co), a); CHECK_EQ(sprout::mem_fn(&Obj::v)(&co), a);
	CHECK(&sprout::mem_fn(&Obj::v)(o) == &o.v); CHECK(&sprout::mem_fn(&Obj::v)(&o) == &o.v);
	{ Obj p = o; CHECK_EQ(sprout::mem_fn(&Obj::bump)(p), a + 3); CHECK_EQ(sprout::mem_fn(&Obj::bump)(&p), a + 6); CHECK_EQ(p.v, a + 6);
	  CHECK_EQ(sprout::mem_fun(&Obj::bump)(&p), a + 9); CHECK_EQ(sprout::mem_fun_ref(&Obj::bump)(p), a + 12); CHECK_EQ(sprout::mem_fun(&Obj::addm)(&p, b), (a + 12 + b) * 2); CHECK_EQ(sprout::mem_fun_ref(&Obj::addm)(p, b), (a + 12 + 2 * b) * 2); CHECK_EQ(p.v, a + 12 + 2 * b);
	  CHECK(&sprout::mem_fn(&Obj::ref)(p) == &p.v); }
	// invoke
	CHECK_EQ(sprout::invoke(mix_fn, a, b), mix_fn(a, b)); CHECK_EQ(sprout::invoke(sub_t(), a, b), a * 2 - b);
	CHECK_EQ(sprout::invoke(&Obj::add, o, b), a * 10 + b); CHECK_EQ(sprout::invoke(&Obj::add, &o, b), a * 10 + b); CHECK_EQ(sprout::invoke(&Obj::add, co, b), a * 10 + b); CHECK_EQ(sprout::invoke(&Obj::add, sp, b), a * 10 + b);
	CHECK_EQ(sprout::invoke(&Obj::v, o), a); CHECK(&sprout::invoke(&Obj::v, &o) == &o.v); CHECK(&sprout::invoke(&Obj::v, o) == &o.v);
	// ref
	{ int x = a; auto r = sprout::ref(x); r.get() = b; CHECK_EQ(x, b); int& y = r; CHECK(&y == &x); CHECK(r.get_pointer() == &x); auto c = sprout::cref(x); CHECK_EQ(c.get(), b); CHECK(&c.get() == &x);
	  auto rr = sprout::ref(r); rr.get() = a; CHECK_EQ(x, a); int z = 5; r = sprout::ref(z); CHECK(&r.get() == &z); CHECK_EQ(x, a); 
	  sub_t s; CHECK_EQ(sprout::ref(s)(a, b), a * 2 - b); CHECK_EQ(sprout::cref(s)(a, b), a * 2 - b); CHECK_EQ(sprout::ref(mix_fn)(a, b), mix_fn(a, b)); }
}

struct f4 { int operator()(int a, int b, int c, int d) const { return ((a * 11 + b) * 11 + c) * 11 + d; } };
struct fcount { int n; int operator()(int a) { return n += a; } };
PROP(bind, 6) {
	using namespace sprout::placeholders;
	int a = static_cast<int>(g.range(-9, 9)), b = static_cast<int>(g.range(-9, 9)), c = static_cast<int>(g.range(-9, 9)), d = static_cast<int>(g.range(-9, 9));
	g.note("a", a); g.note("b", b); g.note("c", c); g.note("d", d); g.nontrivial(a != b && b != c);
	f4 f; sub_t s;
	CHECK_EQ(sprout::bind(f, _1, _2, _3, _4)(a, b, c, d), f(a, b, c, d));
	CHECK_EQ(sprout::bind(f, _4, _3, _2, _1)(a, b, c, d), f(d, c, b, a));
	CHECK_EQ(sprout::bind(f, _2, 3, _1, _2)(a, b), f(b, 3, a, b));
	CHECK_EQ(sprout::bind(f, a, b, c, d)(), f(a, b, c, d));
	CHECK_EQ(sprout::bind(f, a, _1, c, d)(b), f(a, b, c, d));
	CHECK_EQ(sprout::cbind(f, _3, _1, c, _2)(a, b, d), f(d, a, c, b));
	CHECK_EQ(sprout::bind(s, _1, _2)(a, b), s(a, b)); CHECK_EQ(sprout::bind(s, _2, _1)(a, b), s(b, a));
	CHECK_EQ(sprout::bind(s, sprout::bind(s, _1, _2), _3)(a, b, c), s(s(a, b), c));
	CHECK_EQ(sprout::bind(s, sprout::bind(s, _2, _3), sprout::bind(s, _1, d))(a, b, c), s(s(b, c), s(a, d)));
	CHECK_EQ(sprout::bind<int>(s, _1, _2)(a, b), s(a, b)); CHECK_EQ(sprout::bind<long long>(mix_fn, _2, _1)(a, b), mix_fn(b, a));
	CHECK_EQ(sprout::bind(mix_fn, _1, b)(a), mix_fn(a, b));

	Obj o = {a};
	CHECK_EQ(sprout::bind(&Obj::add, &o, _1)(b), a * 10 + b); CHECK_EQ(sprout::bind(&Obj::add, _1, b)(o), a * 10 + b); CHECK_EQ(sprout::bind(&Obj::three, _1, _2, _4, _3)(o, b, c, d), a + b * 100 + d * 10 + c);
	CHECK_EQ(sprout::bind(&Obj::v, _1)(o), a);
	int x = a; sprout::bind(sprout::plus_assign<>(), sprout::ref(x), _1)(b); CHECK_EQ(x, a + b);
	CHECK_EQ(sprout::bind(s, sprout::cref(x), _1)(c), (a + b) * 2 - c);
	int y = a; sprout::bind(sprout::plus_assign<>(), _1, b)(y); CHECK_EQ(y, a + b);
	auto k = sprout::bind(s, x, _1); int old = x; x += 5; CHECK_EQ(k(c), s(old, c));     // the value is copied at bind time
	auto cnt = sprout::bind(fcount{a}, _1); CHECK_EQ(cnt(b), a + b); CHECK_EQ(cnt(c), a + b + c);
	CHECK_EQ(sprout::bind(f, _, _, _, _)(a, b, c, d), f(a, b, c, d));
	CHECK_EQ(sprout::bind(f, _, 5, _, _)(a, c, d), f(a, 5, c, d));
	CHECK_EQ(sprout::bind(f, _va)(a, b, c, d), f(a, b, c, d));
	CHECK_EQ(sprout::bind(f, d, _va)(a, b, c), f(d, a, b, c));
	CHECK_EQ(sprout::bind(f, _1, d, _1tail)(a, b, c), f(a, d, b, c));
	CHECK_EQ(sprout::bind(f, _2, d, _1, _2tail)(a, b, c), f(b, d, a, c));
}

struct Key { int a, b; };
static std::size_t hash_value(Key const& k) { return static_cast<std::size_t>(k.a) * 1000003u + static_cast<std::size_t>(k.b); }
enum En { en_a = 3, en_b = 77 };
PROP(hash_identity, 4) {
	long long v = g.chance(1, 2) ? static_cast<long long>(g.draw(0)) : g.range(-1000, 1000); g.note("v", v); g.nontrivial(v != 0);
	CHECK_EQ(sprout::to_hash(v), static_cast<std::size_t>(v)); CHECK_EQ(sprout::hash<long long>()(v), static_cast<std::size_t>(v)); CHECK_EQ(sprout::hash<>()(v), static_cast<std::size_t>(v)); CHECK_EQ(sprout::hash_value(v), static_cast<std::size_t>(v));
	int i = static_cast<int>(v); CHECK_EQ(sprout::hash<int>()(i), static_cast<std::size_t>(i)); CHECK_EQ(sprout::hash<int const>()(i), static_cast<std::size_t>(i));
	short h = static_cast<short>(v); CHECK_EQ(sprout::hash<short>()(h), static_cast<std::size_t>(h)); CHECK_EQ(sprout::hash<unsigned short>()(static_cast<unsigned short>(v)), static_cast<std::size_t>(static_cast<unsigned short>(v)));
	char ch = static_cast<char>(v); CHECK_EQ(sprout::hash<char>()(ch), static_cast<std::size_t>(ch)); CHECK_EQ(sprout::hash<bool>()(v != 0), static_cast<std::size_t>(v != 0));
	CHECK_EQ(sprout::hash<unsigned long long>()(static_cast<unsigned long long>(v)), static_cast<std::size_t>(v));
	CHECK_EQ(sprout::to_hash(en_b), std::size_t(77));
	Key k = {i, h}; CHECK_EQ(sprout::to_hash(k), hash_value(k)); CHECK_EQ(sprout::hash<Key>()(k), hash_value(k));
	int* p = &i; CHECK_EQ(sprout::hash<int*>()(p), sprout::to_hash(p)); CHECK(sprout::to_hash(p) != sprout::to_hash(p + 1));
	std::string s = g.str(8, std::string("xyz")); CHECK_EQ(sprout::to_hash(s), std::hash<std::string>()(s));
}
// combining: the documented fold, equal values equal hashes, order and length matter
static std::size_t comb(std::size_t seed, std::size_t h) { return seed ^ (h + 0x9e3779b9 + (seed << 6) + (seed >> 2)); }
PROP(hash_combine, 4) {
	std::size_t n = g.size(8); std::vector<int> v; for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<int>(g.range(-40, 40)));
	std::size_t seed = g.flag() ? 0 : g.draw(0); g.note("v", v); g.note("seed", seed); g.nontrivial(n >= 2);
	std::size_t e = seed, e0 = 0; for (int x : v) { e = comb(e, static_cast<std::size_t>(x)); e0 = comb(e0, static_cast<std::size_t>(x)); }
	CHECK_EQ(sprout::hash_range(seed, v.begin(), v.end()), e); CHECK_EQ(sprout::hash_range(v.begin(), v.end()), e0);
	CHECK_EQ(sprout::hash_range(seed, v), e); CHECK_EQ(sprout::hash_range(v), e0);
	sprout::array<int, 4> a = {{}}; std::array<int, 4> sa; int ca[4]; for (std::size_t i = 0; i < 4; ++i) sa[i] = ca[i] = a[i] = i < n ? v[i] : 0;
	std::size_t f = 0; for (int x : a) f = comb(f, static_cast<std::size_t>(x));
	CHECK_EQ(sprout::to_hash(a), f); CHECK_EQ(sprout::hash<decltype(a)>()(a), f); CHECK_EQ(sprout::to_hash(sa), f); CHECK_EQ(sprout::to_hash(ca), f); CHECK_EQ(sprout::hash_values(a[0], a[1], a[2], a[3]), f); CHECK_EQ(sprout::hash_combine(seed, a[0], a[1]), comb(comb(seed, static_cast<std::size_t>(a[0])), static_cast<std::size_t>(a[1])));
	sprout::tuples::tuple<int, short, long> t(a[0], static_cast<short>(a[1]), a[2]);
	CHECK_EQ(sprout::to_hash(t), sprout::hash_values(a[0], a[1], a[2])); CHECK_EQ(sprout::to_hash(sprout::pair<int, int>(a[0], a[1])), sprout::hash_values(a[0], a[1])); CHECK_EQ(sprout::to_hash(std::pair<int, int>(a[0], a[1])), sprout::hash_values(a[0], a[1]));
	sprout::array<int, 4> b = a; CHECK_EQ(sprout::to_hash(a), sprout::to_hash(b));
	std::size_t i = g.draw(4); b[i] += 1; CHECK(sprout::to_hash(a) != sprout::to_hash(b));
	if (a[0] != a[1]) CHECK(sprout::hash_values(a[0], a[1]) != sprout::hash_values(a[1], a[0]));
}
template<typename T> static void hfloat(G& g) {
	T x = static_cast<T>(std::ldexp(static_cast<T>(1) + static_cast<T>(g.draw(1u << 20)) / (1u << 20) + static_cast<T>(g.draw(1u << 20)) * std::numeric_limits<T>::epsilon(), static_cast<int>(g.range(-60, 60))));
	if (g.flag()) x = -x;
	g.note("x", x); g.nontrivial(true);
	T up = std::nextafter(x, std::numeric_limits<T>::infinity());
	CHECK(sprout::to_hash(x) == sprout::to_hash(static_cast<T>(x))); CHECK(sprout::hash<T>()(x) == sprout::to_hash(x));
	// a hash may collide, but neighbours, negatives and multiples by powers of two do so next to never
	std::set<std::size_t> hs; T y = x;
	for (int i = 0; i < 32; ++i, y = up, up = std::nextafter(y, std::numeric_limits<T>::infinity())) { hs.insert(sprout::to_hash(y)); hs.insert(sprout::to_hash(-y)); }
	for (int i = 1; i <= 16; ++i) { hs.insert(sprout::to_hash(std::ldexp(x, i))); hs.insert(sprout::to_hash(std::ldexp(x, -i))); }
	g.note("distinct hashes of 96", hs.size()); CHECK(hs.size() >= 80);
	CHECK(sprout::to_hash(T(0)) == sprout::to_hash(-T(0)));
	CHECK(sprout::to_hash(std::numeric_limits<T>::infinity()) != sprout::to_hash(-std::numeric_limits<T>::infinity()));
	CHECK(sprout::to_hash(std::numeric_limits<T>::infinity()) != sprout::to_hash(x));
}
PROP_INST(hash_float, 1, hfloat<float>)
PROP_INST(hash_double, 2, hfloat<double>)
PROP_INST(hash_ldouble, 1, hfloat<long double>)
