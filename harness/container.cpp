// K01: arrays, views into them and the container functions, against std::array / std::vector
#include "pbt.hpp"
#include <array>
#include <vector>
#include <string>
#include <list>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/string.hpp>
#include <sprout/container.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/utility/swap.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/iterator.hpp>
using namespace pbt;
typedef std::vector<int> V;

template<class C> static V contents(C const& c) { V v; for (auto it = c.begin(); it != c.end(); ++it) v.push_back(*it); return v; }
static int small(G& g) { return g.irange(-2, 3); }
static V values(G& g, size_t n) { V v; for (size_t i = 0; i < n; ++i) v.push_back(g.chance(1, 8) ? g.integer<int>() : small(g)); return v; }
template<size_t N> sprout::array<int, N> arr(V const& v) { sprout::array<int, N> a{}; for (size_t i = 0; i < N; ++i) a[i] = v[i]; return a; }

// ---- sprout::array as std::array, over histories
template<size_t N> static void array_history(G& g) {
	V m = values(g, N), m2 = values(g, N);
	if (g.flag()) { m2 = m; if (N && g.flag()) m2[g.draw(N)] ^= 1; }
	sprout::array<int, N> a = arr<N>(m), b = arr<N>(m2);
	size_t ops = 1 + g.size(8);
	if (N && ops > 1) g.nontrivial();
	for (size_t k = 0; k < ops; ++k) {
		switch (g.draw(12)) {
		case 0: { int x = small(g); g.note("fill", x); a.fill(x); m.assign(N, x); break; }
		case 1: { int x = small(g); a.assign(x); m.assign(N, x); break; }
		case 2: a.swap(b); m.swap(m2); break;
		case 3: { using sprout::swap; swap(a, b); m.swap(m2); break; }
		case 4: { sprout::array<int, N> const& c = a; int x = small(g); auto f = c.fill(x); CHECK(contents(f) == V(N, x)); auto h = c.assign(x); CHECK(contents(h) == V(N, x)); break; }
		case 5: { sprout::array<int, N> c(a); a = b; m = m2; CHECK(N == 0 || c.size() == N); break; }
		case 6: { if (!N) break; size_t i = g.draw(N); int x = small(g); a[i] = x; m[i] = x; break; }
		case 7: { if (!N) break; size_t i = g.draw(N); int x = small(g); a.at(i) = x; m[i] = x; break; }
		case 8: { if (!N) break; int x = small(g); if (g.flag()) { a.front() = x; m.front() = x; } else { a.back() = x; m.back() = x; } break; }
		case 9: { if (!N) break; size_t i = g.draw(N); int x = small(g); *a.nth(i) = x; m[i] = x; break; }
		case 10: { if (!N) break; size_t i = g.draw(N); int x = small(g); if (g.flag()) a.data()[i] = x; else a.c_array()[i] = x; m[i] = x; break; }
		case 11: { if (!N) break; size_t i = g.draw(N); int x = small(g); a.rbegin()[i] = x; m[N - 1 - i] = x; break; }
		}
		CHECK(contents(a) == m);
		CHECK(contents(b) == m2);
	}
	sprout::array<int, N> const& c = a;
	CHECK_EQ(c.size(), N); CHECK_EQ(c.max_size(), N); CHECK_EQ(c.empty(), N == 0);
	CHECK(V(c.rbegin(), c.rend()) == V(m.rbegin(), m.rend()));
	CHECK(V(c.cbegin(), c.cend()) == m); CHECK(V(c.crbegin(), c.crend()) == V(m.rbegin(), m.rend()));
	size_t far[] = {N, N + 1, N + g.draw(1001), size_t(-1), size_t(1) << 63};
	for (size_t i : far) { CHECK_THROWS(std::out_of_range, c.at(i)); CHECK_THROWS(std::out_of_range, a.at(i)); }
	for (size_t i = 0; i < N; ++i) {
		CHECK_EQ(c[i], m[i]); CHECK_EQ(c.at(i), m[i]); CHECK_EQ(c.data()[i], m[i]);
		CHECK(c.nth(i) == c.begin() + i); CHECK_EQ(c.index_of(c.begin() + i), i); CHECK_EQ(&a[i], a.data() + i);
	}
	if (N) { CHECK_EQ(c.front(), m.front()); CHECK_EQ(c.back(), m.back()); }
	// comparison is lexicographic and consistent with hashing
	CHECK_EQ(a == b, m == m2); CHECK_EQ(a != b, m != m2); CHECK_EQ(a < b, m < m2); CHECK_EQ(a > b, m > m2); CHECK_EQ(a <= b, m <= m2); CHECK_EQ(a >= b, m >= m2);
	if (m == m2) CHECK_EQ(sprout::to_hash(a), sprout::to_hash(b));
	{ std::array<int, N> s = a; CHECK(V(s.begin(), s.end()) == m); }
}
PROP_INST(array_history_0, 0.1, array_history<0>)
PROP_INST(array_history_1, 0.3, array_history<1>)
PROP_INST(array_history_2, 0.5, array_history<2>)
PROP_INST(array_history_5, 1, array_history<5>)
PROP_INST(array_history_9, 0.5, array_history<9>)

PROP(array_make, 0.5) {
	V v = values(g, 4); g.nontrivial();
	CHECK(contents(sprout::make_array<int>(v[0], v[1], v[2], v[3])) == v);
	CHECK(contents(sprout::make_array(v[0], v[1], v[2], v[3])) == v);
	auto d = sprout::make_array<double>(v[0], v[1], v[2]); CHECK(d.size() == 3); for (int i = 0; i < 3; ++i) CHECK_EQ(d[i], double(v[i]));
	auto n = sprout::make_array<int, 6>(v[0], v[1]); CHECK(contents(n) == (V{v[0], v[1], 0, 0, 0, 0}));
	auto l = sprout::make_array(char(v[0]), (long long)v[1]); static_assert(std::is_same<decltype(l), sprout::array<long long, 2>>::value, ""); CHECK_EQ(l[1], (long long)v[1]); CHECK_EQ(l[0], (long long)char(v[0]));
	auto a = arr<4>(v);
	CHECK_EQ(sprout::tuples::get<0>(a), v[0]); CHECK_EQ(sprout::tuples::get<3>(a), v[3]);
	CHECK_EQ((sprout::tuples::tuple_size<sprout::array<int, 4>>::value), size_t(4));
	sprout::tuples::get<2>(a) = 17; CHECK_EQ(a[2], 17);
	int const& r = sprout::tuples::get<1>(static_cast<sprout::array<int, 4> const&>(a)); CHECK_EQ(&r, &a[1]);
}

// ---- sub_array: a window over a container, held by value or by reference
template<class C> struct traits_;
template<> struct traits_<sprout::array<int, 8>> { typedef sprout::array<int, 8> owned; };
template<> struct traits_<sprout::array<int, 8>&> { typedef sprout::array<int, 8> owned; };
struct View { V base; long f, l; V view() const { return V(base.begin() + f, base.begin() + l); } };
template<class S> static void same(S const& s, View const& m) {
	V e = m.view();
	CHECK_EQ(s.size(), e.size()); CHECK_EQ(s.max_size(), e.size()); CHECK_EQ(s.empty(), e.empty());
	CHECK(contents(s) == e); CHECK(V(s.cbegin(), s.cend()) == e);
	CHECK(contents(s.get_internal()) == m.base); CHECK(contents(s.get_array()) == m.base);
	CHECK_EQ(long(s.to_first()), m.f); CHECK_EQ(long(s.to_last()), m.l); CHECK_EQ(long(s.from_begin()), m.f); CHECK_EQ(long(s.from_end()), m.l - long(m.base.size()));
	for (size_t i = 0; i < e.size(); ++i) { CHECK_EQ(s[i], e[i]); CHECK_EQ(s.at(i), e[i]); CHECK_EQ(*s.nth(i), e[i]); CHECK_EQ(s.data()[i], e[i]); CHECK_EQ(s.c_array()[i], e[i]); CHECK_EQ(size_t(s.index_of(s.begin() + i)), i); CHECK(s.nth(i) == s.begin() + i); }
	for (size_t i : {e.size(), e.size() + 1, size_t(-1)}) { CHECK_THROWS(std::out_of_range, s.at(i)); CHECK_THROWS(std::out_of_range, s.nth(i)); }
	if (!e.empty()) { CHECK_EQ(s.front(), e.front()); CHECK_EQ(s.back(), e.back()); }
	// the generic functions agree
	CHECK_EQ(size_t(sprout::size(s)), e.size()); CHECK_EQ(sprout::empty(s), e.empty());
	CHECK(V(sprout::begin(s), sprout::end(s)) == e); CHECK(V(sprout::cbegin(s), sprout::cend(s)) == e);
	if (!e.empty()) { CHECK_EQ(sprout::front(s), e.front()); CHECK_EQ(sprout::back(s), e.back()); CHECK_EQ(*sprout::nth(s, e.size() - 1), e.back()); CHECK_EQ(sprout::at(s, e.size() - 1), e.back()); }
	CHECK_EQ(long(sprout::internal_begin_offset(s)), m.f); CHECK_EQ(long(sprout::internal_end_offset(s)), m.l);
	CHECK_EQ(long(sprout::internal_begin_offset_backward(s)), long(m.base.size()) - m.f); CHECK_EQ(long(sprout::internal_end_offset_backward(s)), long(m.base.size()) - m.l);
	CHECK_EQ(size_t(sprout::internal_size(s)), m.base.size());
	CHECK(V(sprout::internal_begin(s), sprout::internal_end(s)) == m.base); CHECK(contents(sprout::get_internal(s)) == m.base);
}
template<class C> static void sub_history(G& g) {
	typedef typename traits_<C>::owned A; typedef sprout::sub_array<C> S;
	View m; m.base = values(g, 8); m.f = g.irange(0, 8); m.l = g.irange(int(m.f), 8);
	A a = arr<8>(m.base);
	S s = g.flag() ? S(a, m.f, m.l) : S(a, a.cbegin() + m.f, a.cbegin() + m.l);
	if (m.l - m.f >= 2) g.nontrivial();
	same(s, m);
	size_t ops = g.size(10);
	for (size_t k = 0; k < ops; ++k) {
		size_t n = size_t(m.l - m.f);
		switch (g.draw(16)) {
		case 0: { int x = small(g); g.note("fill", x); s.fill(x); std::fill(m.base.begin() + m.f, m.base.begin() + m.l, x); break; }
		case 1: { int x = small(g); s.assign(x); std::fill(m.base.begin() + m.f, m.base.begin() + m.l, x); break; }
		case 2: if (m.l < 8) { int x = small(g); g.note("push_back", x); s.push_back(x); m.base[size_t(m.l++)] = x; } break;
		case 3: if (m.f > 0) { int x = small(g); g.note("push_front", x); s.push_front(x); m.base[size_t(--m.f)] = x; } break;
		case 4: if (n) { g.note("op", "pop_back"); s.pop_back(); m.base[size_t(--m.l)] = 0; } break;
		case 5: if (n) { g.note("op", "pop_front"); s.pop_front(); m.base[size_t(m.f++)] = 0; } break;
		case 6: if (n) { s.drop_back(); --m.l; } break;
		case 7: if (n) { s.drop_front(); ++m.f; } break;
		case 8: { int f = g.irange(0, 8), l = g.irange(f, 8); g.note("window", f); g.note("to", l); s.window(f, l); m.f = f; m.l = l; break; }
		case 9: { int f = g.irange(int(-m.f), int(8 - m.f)), l = g.irange(int(m.f + f - m.l), int(8 - m.l)); g.note("offset", f); g.note("to", l); s.offset(f, l); m.f += f; m.l += l; break; }
		case 10: if (n) { size_t i = g.draw(n); int x = small(g); s[i] = x; m.base[size_t(m.f) + i] = x; } break;
		case 11: if (n) { size_t i = g.draw(n); int x = small(g); s.at(i) = x; m.base[size_t(m.f) + i] = x; } break;
		case 12: if (n) { int x = small(g); if (g.flag()) { s.front() = x; m.base[size_t(m.f)] = x; } else { s.back() = x; m.base[size_t(m.l) - 1] = x; } } break;
		case 13: if (n) { size_t i = g.draw(n); int x = small(g); switch (g.draw(4)) { case 0: *s.nth(i) = x; break; case 1: s.data()[i] = x; break; case 2: *(s.begin() + i) = x; break; default: s.c_array()[i] = x; } m.base[size_t(m.f) + i] = x; } break;
		case 14: { S const& c = s; View w = m; w.f = g.irange(0, 8); w.l = g.irange(int(w.f), 8); same(g.flag() ? c.window(w.f, w.l) : c.cwindow(w.f, w.l), w); break; }
		case 15: { S const& c = s; View w = m; int f = g.irange(int(-m.f), int(8 - m.f)), l = g.irange(int(m.f + f - m.l), int(8 - m.l)); w.f += f; w.l += l; same(g.flag() ? c.offset(f, l) : c.coffset(f, l), w); break; }
		}
		same(s, m);
		CHECK_EQ(s.size(), size_t(m.l - m.f));
	}
	if (std::is_reference<C>::value) CHECK(contents(a) == m.base);	// writes go through
	{ S t(s); same(t, m); }
	// views of views
	{ View w = m; int n = int(m.l - m.f), x = g.irange(0, n), y = g.irange(x, n); w.f = m.f + x; w.l = m.f + y; same(S(s, x, y), w); same(S(s, s.get_internal().cbegin() + w.f, s.get_internal().cbegin() + w.l), w); }
}
PROP_INST(sub_array_value_history, 2, sub_history<sprout::array<int, 8>>)
PROP_INST(sub_array_reference_history, 2, sub_history<sprout::array<int, 8>&>)

PROP(sub_array_pair, 1) {
	typedef sprout::array<int, 6> A; typedef sprout::sub_array<A> S;
	View m[2]; A a[2]; 
	for (int i = 0; i < 2; ++i) { m[i].base = values(g, 6); m[i].f = g.irange(0, 6); m[i].l = g.irange(int(m[i].f), 6); }
	if (g.flag()) { long n = m[0].l - m[0].f; if (m[1].f + n <= 6) { m[1].l = m[1].f + n; for (long i = 0; i < n; ++i) m[1].base[size_t(m[1].f + i)] = m[0].base[size_t(m[0].f + i)]; } if (m[1].l > m[1].f && g.flag()) m[1].base[size_t(m[1].f)] ^= 1; }
	for (int i = 0; i < 2; ++i) a[i] = arr<6>(m[i].base);
	S s(a[0], m[0].f, m[0].l), t(a[1], m[1].f, m[1].l);
	V x = m[0].view(), y = m[1].view(); if (x.size() > 1 && y.size() > 1) g.nontrivial();
	CHECK_EQ(s == t, x == y); CHECK_EQ(s != t, x != y); CHECK_EQ(s < t, x < y); CHECK_EQ(s > t, x > y); CHECK_EQ(s <= t, x <= y); CHECK_EQ(s >= t, x >= y);
	if (x == y) CHECK_EQ(sprout::to_hash(s), sprout::to_hash(t));
	if (g.flag()) s.swap(t); else { using sprout::swap; swap(s, t); }
	same(s, m[1]); same(t, m[0]);
	s = t; same(s, m[0]); same(t, m[0]);
}
PROP(sub_array_functions, 2) {
	typedef sprout::array<int, 7> A;
	V b = values(g, 7); A a = arr<7>(b); A const& ca = a; sprout::array<int, 7> const orig = a;
	int f = g.irange(0, 7), l = g.irange(f, 7); View w{b, f, l}, w1{b, f, 7}; if (l - f > 1) g.nontrivial();
	same(sprout::sub(a, f, l), w); same(sprout::sub(ca, f, l), w); same(sprout::sub(a, a.cbegin() + f, a.cbegin() + l), w); same(sprout::sub(ca, ca.cbegin() + f, ca.cbegin() + l), w);
	same(sprout::sub(a, a.cbegin() + f), w1); same(sprout::sub(ca, ca.cbegin() + f), w1); if (f) { same(sprout::sub(a, f), w1); same(sprout::sub(ca, f), w1); } 
	same(sprout::sub(a), View{b, 0, 7}); same(sprout::sub(ca), View{b, 0, 7}); same(sprout::csub(a), View{b, 0, 7}); same(sprout::sub_copy(a), View{b, 0, 7});
	same(sprout::csub(a, f, l), w); same(sprout::csub(a, a.cbegin() + f, a.cbegin() + l), w); same(sprout::sub_copy(a, f, l), w); same(sprout::sub_copy(a, a.cbegin() + f, a.cbegin() + l), w);
	same(sprout::sub_window(a, f, l), w); same(sprout::sub_window(ca, f, l), w); same(sprout::csub_window(a, f, l), w); same(sprout::sub_window_copy(a, f, l), w);
	{ View whole{b, 0, 7}; same(sprout::sub_window(a), whole); same(sprout::sub_window(ca), whole); same(sprout::csub_window(a), whole); same(sprout::sub_window_copy(a), whole); same(sprout::sub_offset(a), whole); same(sprout::sub_offset(ca), whole); same(sprout::csub_offset(a), whole); same(sprout::sub_offset_copy(a), whole); }
	same(sprout::sub_window(a, f), w1); same(sprout::sub_window_copy(a, f), w1); same(sprout::csub_window(a, f), w1);
	same(sprout::sub_offset(a, f, l - 7), w); same(sprout::sub_offset(ca, f, l - 7), w); same(sprout::csub_offset(a, f, l - 7), w); same(sprout::sub_offset_copy(a, f, l - 7), w); same(sprout::sub_offset(a, f), w1);
	// of a view: positions are relative to the view
	auto v = sprout::sub(a, f, l); auto c = sprout::sub_copy(a, f, l);
	int n = l - f, x = g.irange(0, n), y = g.irange(x, n); View u{b, f + x, f + y}, u1{b, f + x, l};
	same(sprout::sub(v, x, y), u); same(sprout::sub_window(v, x, y), u); same(sprout::sub_offset(v, x, y - n), u); same(sprout::csub(v, x, y), u); same(sprout::csub_window(v, x, y), u); same(sprout::csub_offset(v, x, y - n), u);
	same(sprout::sub_copy(v, x, y), u); same(sprout::sub_window_copy(v, x, y), u); same(sprout::sub_offset_copy(v, x, y - n), u);
	same(sprout::sub_window(v, x), u1); same(sprout::sub_offset(v, x), u1); same(sprout::csub_window(v, x), u1); same(sprout::sub_window_copy(v, x), u1);
	same(sprout::sub(c, x, y), u); same(sprout::sub_window(c, x, y), u); same(sprout::sub_offset(c, x, y - n), u); same(sprout::sub_copy(c, x, y), u); same(sprout::csub(c, x, y), u);
	same(sprout::sub(v, v.cbegin() + x, v.cbegin() + y), u); same(sprout::sub(v, v.cbegin() + x), u1);
	// a copy is independent, a view is not
	if (n) { c[0] = 99; CHECK(a == orig); v[0] = 98; CHECK_EQ(a[size_t(f)], 98); }
}

// ---- container functions over the different kinds of container
template<class C> static void functions(C& c, V const& m) {
	C const& k = c; size_t n = m.size();
	CHECK_EQ(size_t(sprout::size(c)), n); CHECK_EQ(size_t(sprout::size(k)), n); CHECK_EQ(sprout::empty(k), n == 0); 
	V f, cf, b, cb;
	for (auto i = sprout::begin(c); i != sprout::end(c); ++i) f.push_back(*i);
	for (auto i = sprout::begin(k); i != sprout::end(k); ++i) cf.push_back(*i);
	for (auto i = sprout::cbegin(c); i != sprout::cend(c); ++i) cb.push_back(*i);
	CHECK(f == m); CHECK(cf == m); CHECK(cb == m);
	if (n) { CHECK_EQ(int(sprout::front(c)), m.front()); CHECK_EQ(int(sprout::back(c)), m.back()); CHECK_EQ(int(sprout::front(k)), m.front()); CHECK_EQ(int(sprout::back(k)), m.back()); }
	for (size_t i = 0; i < n; ++i) {
		CHECK_EQ(int(*sprout::nth(c, i)), m[i]); CHECK_EQ(int(*sprout::nth(k, i)), m[i]); CHECK_EQ(int(*sprout::cnth(c, i)), m[i]);
		CHECK_EQ(int(sprout::at(c, i)), m[i]); CHECK_EQ(int(sprout::at(k, i)), m[i]);
		CHECK_EQ(size_t(sprout::index_of(c, sprout::nth(c, i))), i); CHECK_EQ(size_t(sprout::index_of(k, sprout::nth(k, i))), i); CHECK_EQ(size_t(sprout::cindex_of(c, sprout::nth(k, i))), i);
		CHECK_EQ(sprout::range_index_check(k, i), i);
	}
	CHECK_THROWS(std::out_of_range, sprout::range_index_check(k, n));
}
PROP(container_functions, 1) {
	V m = values(g, 5); g.nontrivial();
	switch (g.draw(8)) {
	case 0: { auto a = arr<5>(m); functions(a, m); CHECK_EQ(*sprout::data(a), m[0]); CHECK_EQ(sprout::data(a) + 0, a.data()); sprout::front(a) = 5; CHECK_EQ(a[0], 5); *sprout::nth(a, 2) = 7; CHECK_EQ(a[2], 7); CHECK_THROWS(std::out_of_range, sprout::at(a, 5)); CHECK_THROWS(std::out_of_range, sprout::at(a, size_t(-1))); break; }
	case 1: { int a[5]; std::copy(m.begin(), m.end(), a); functions(a, m); sprout::front(a) = 5; CHECK_EQ(a[0], 5); *sprout::nth(a, 2) = 7; CHECK_EQ(a[2], 7); *sprout::begin(a) = 3; CHECK_EQ(a[0], 3); sprout::back(a) = 4; CHECK_EQ(a[4], 4); break; }
	case 2: { std::vector<int> a(m.begin(), m.begin() + long(g.draw(6))); V mm = a; functions(a, mm); break; }
	case 3: { std::list<int> a(m.begin(), m.end()); functions(a, m); break; }
	case 4: { std::array<int, 5> a; std::copy(m.begin(), m.end(), a.begin()); functions(a, m); break; }
	case 5: { sprout::basic_string<char, 8> s; V t; size_t n = g.draw(9); std::string x; for (size_t i = 0; i < n; ++i) { x += g.pick({'a', 'b', 'z', '0'}); t.push_back(x.back()); } s = sprout::basic_string<char, 8>::from_c_str(x.c_str()); functions(s, t); break; }
	case 6: { auto a = arr<5>(m); size_t f = g.draw(6), l = f + g.draw(5 - f + 1); auto s = sprout::sub(a, long(f), long(l)); functions(s, V(m.begin() + long(f), m.begin() + long(l))); break; }
	default: { sprout::array<int, 0> a{}; functions(a, V()); }
	}
}
// construction through the container traits
PROP(container_construct, 1) {
	V m = values(g, 6); g.nontrivial(); auto a = arr<6>(m); typedef sprout::array<int, 6> A;
	CHECK(contents(sprout::make<A>(m[0], m[1], m[2], m[3], m[4], m[5])) == m);
	CHECK(contents(sprout::make<A>(m[0], m[1])) == (V{m[0], m[1], 0, 0, 0, 0}));
	CHECK(contents(sprout::remake<A>(a, 6, m[3], m[4], m[5], m[0], m[1], m[2])) == (V{m[3], m[4], m[5], m[0], m[1], m[2]}));
	CHECK(contents(sprout::deep_copy(a)) == m);
	typedef sprout::containers::rebind_size<A, 3>::type R3; CHECK((std::is_same<R3, sprout::array<int, 3>>::value));
	typedef sprout::containers::rebind_type<A, double>::type RD; CHECK((std::is_same<RD, sprout::array<double, 6>>::value));
	size_t f = g.draw(7), l = f + g.draw(6 - f + 1); auto s = sprout::sub(a, long(f), long(l));
	CHECK(contents(sprout::deep_copy(s)) == V(m.begin() + long(f), m.begin() + long(l)));
	CHECK(contents(sprout::internal_deep_copy(s)) == m);
	CHECK_EQ(sprout::container_traits<A>::static_size, size_t(6));
}
