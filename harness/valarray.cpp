// V01: sprout::valarray (capacity N, any size up to it) against std::valarray
#include "pbt.hpp"
#include <valarray>
#include <cmath>
#include <sprout/valarray.hpp>
#include <sprout/functional/hash.hpp>
using namespace pbt;
#ifndef PART
#define PART 1
#endif
enum { CAP = 7 };
template<class T> using S = sprout::valarray<T, CAP>; template<class T> using V = std::valarray<T>;
template<class T> std::vector<T> lst(V<T> const& v) { return std::vector<T>(std::begin(v), std::end(v)); }
template<class T, std::size_t N> std::vector<T> lst(sprout::valarray<T, N> const& s) { std::vector<T> r; for (std::size_t i = 0; i < s.size(); ++i) r.push_back(s[i]); return r; }
template<class T> std::vector<T> seq(T const* p, std::size_t n) { return std::vector<T>(p, p + n); }
template<class T> bool same1(T a, T b) { return a == b || (a != a && b != b); }
template<class A, class B> void same_(A const& a, B const& b, char const* w, int line) {
	auto x = lst(a); auto y = lst(b); bool ok = x.size() == y.size(); for (std::size_t i = 0; ok && i < x.size(); ++i) ok = same1(x[i], y[i]);
	if (!ok) fail(__FILE__, line, std::string(w) + ": got " + show(x) + " expected " + show(y));
}
#define SAME(a, b) same_((a), (b), #a, __LINE__)
// std::valarray expression templates are forced into a valarray first
#define VEQ(T, a, b) do { V<T> pbt_v = (b); SAME(a, pbt_v); } while (0)
template<class T> void val(G& g, T& x) { x = g.flag() ? T(int(g.draw(7)) - 3) : T(int(g.draw(2001)) - 1000); if (std::is_floating_point<T>::value && g.flag()) x /= 8; }
template<class T> V<T> pick(G& g, std::size_t n) { V<T> v(n); for (std::size_t i = 0; i < n; ++i) val(g, v[i]); return v; }
template<class T> S<T> conv(V<T> const& v) { S<T> s(v.size()); for (std::size_t i = 0; i < v.size(); ++i) s[i] = v[i]; return s; }
static std::size_t len(G& g) { return std::size_t(g.draw(CAP + 1)); }

#if PART == 1
template<class T> void construct(G& g) {
	std::size_t n = len(g); V<T> v = pick<T>(g, n); std::vector<T> d = lst(v); T x; val(g, x); g.note("v", d);
	T buf[CAP + 1]; std::copy(d.begin(), d.end(), buf);
	SAME(S<T>(), V<T>()); SAME(S<T>(n), V<T>(n)); SAME(S<T>(x, n), V<T>(x, n)); SAME(S<T>(buf, n), V<T>(buf, n));
	S<T> s(conv(v)); SAME(s, v); S<T> c(s); SAME(c, v); S<T> m(std::move(c)); SAME(m, v);
	CHECK_THROWS(std::length_error, S<T>(n + CAP + 1)); CHECK_THROWS(std::length_error, S<T>(x, n + CAP + 1));
	S<T> l = { x, T(1), T(2) }; SAME(l, (V<T>{ x, T(1), T(2) }));
	S<T> const& k = s; CHECK_EQ(k.size(), n); CHECK_EQ(k.empty(), n == 0); CHECK_EQ(k.max_size(), std::size_t(CAP));
	CHECK_EQ((std::vector<T>(k.begin(), k.end())), d); CHECK_EQ((std::vector<T>(s.begin(), s.end())), d); CHECK_EQ((std::vector<T>(k.cbegin(), k.cend())), d);
	std::vector<T> r(d.rbegin(), d.rend()); CHECK_EQ((std::vector<T>(k.rbegin(), k.rend())), r); CHECK_EQ((std::vector<T>(s.rbegin(), s.rend())), r); CHECK_EQ((std::vector<T>(k.crbegin(), k.crend())), r);
	for (std::size_t i = 0; i < n; ++i) { CHECK(same1(k.at(i), d[i]) && same1(s.at(i), d[i]) && same1(*k.nth(i), d[i]) && same1(*s.nth(i), d[i]) && same1(k.data()[i], d[i]) && same1(s.c_array()[i], d[i])); CHECK_EQ(k.index_of(k.begin() + i), i); k.rangecheck(i); }
	if (n) { CHECK(same1(k.front(), d[0]) && same1(k.back(), d[n - 1]) && &s.front() == &s[0] && &s.back() == &s[n - 1]); T sum = v.sum(); CHECK(std::is_floating_point<T>::value ? std::abs(double(k.sum() - sum)) < 1e-6 : k.sum() == sum); CHECK(k.min() == v.min()); CHECK(k.max() == v.max()); }
	CHECK_THROWS(std::out_of_range, k.at(n)); CHECK_THROWS(std::out_of_range, s.at(n)); CHECK_THROWS(std::out_of_range, k.nth(n)); CHECK_THROWS(std::out_of_range, s.nth(n)); CHECK_THROWS(std::out_of_range, (k.rangecheck(n), 0));
	g.nontrivial(n > 1);
}
template<class T> void history(G& g) {
	const int N = 2; S<T> s[N]; V<T> m[N]; std::size_t steps = 1 + g.size(14);
	for (std::size_t q = 0; q < steps; ++q) {
		int i = int(g.draw(N)), j = int(g.draw(N)), op = int(g.draw(14)); T x; val(g, x); std::size_t n = len(g); V<T> v = pick<T>(g, n);
		g.note("op", std::to_string(op) + ":" + std::to_string(i) + std::to_string(j)); g.note("v", lst(v)); g.note("x", x);
		S<T> const& cj = s[j];
		switch (op) {
		case 0: s[i] = cj; m[i] = V<T>(m[j]); break;
		case 1: s[i] = conv(v); m[i] = v; break;
		case 2: s[i] = x; m[i] = x; break;
		case 3: s[i] = { x, T(5) }; m[i] = V<T>{ x, T(5) }; break;
		case 4: s[i].swap(s[j]); std::swap(m[i], m[j]); break;
		case 5: { using std::swap; swap(s[i], s[j]); std::swap(m[i], m[j]); break; }
		case 6: s[i].resize(n, x); m[i].resize(n, x); break;
		case 7: s[i].resize(n); m[i].resize(n); break;
		case 8: s[i].fill(x); m[i] = x; break;
		case 9: s[i].assign(x); m[i] = x; break;
		case 10: if (m[i].size()) { std::size_t p = std::size_t(g.draw(m[i].size())); s[i][p] = x; m[i][p] = x; } break;
		case 11: SAME(cj.fill(x), V<T>(x, m[j].size())); SAME(cj.assign(x), V<T>(x, m[j].size())); break;
		case 12: s[i] += x; m[i] += x; break;
		case 13: if (m[i].size() && g.flag()) { *(s[i].begin() + g.draw(1)) = x; m[i][0] = x; } break;
		}
		if (std::is_integral<T>::value) for (int k = 0; k < N; ++k) for (std::size_t p = 0; p < m[k].size(); ++p) if (m[k][p] > T(100000) || m[k][p] < T(-100000)) { m[k][p] = 0; s[k][p] = 0; }
		for (int k = 0; k < N; ++k) SAME(s[k], m[k]);
	}
	g.nontrivial(steps > 2);
}
static int twice(int x) { return 2 * x + 1; } static int thrice(int const& x) { return 3 * x; }
struct Sq { int operator()(int x) const { return x * x; } };
PROP(shifts, 3) {
	std::size_t n = len(g); V<int> v = pick<int>(g, n); S<int> s = conv(v); int k = int(g.range(-9, 9)); if (g.flag() && n) k = int(g.draw(2 * n + 1)) - int(n); g.note("v", lst(v)); g.note("k", k);
	std::vector<int> e(n), c(n);
	for (std::size_t i = 0; i < n; ++i) { long p = long(i) + k; e[i] = p >= 0 && p < long(n) ? v[p] : 0; c[i] = v[((p % long(n)) + long(n)) % long(n)]; }
	CHECK_EQ(lst(s.shift(k)), e); CHECK_EQ(lst(s.cshift(k)), c); SAME(s, v);
	VEQ(int, s.apply(twice), v.apply(twice)); VEQ(int, s.apply(thrice), v.apply(thrice)); { V<int> q = v; for (int& x : q) x *= x; SAME(s.apply(Sq()), q); }
	g.nontrivial(n > 1 && k);
}
PROP_INST(construct_int, 3, construct<int>)
PROP_INST(construct_double, 2, construct<double>)
PROP_INST(history_int, 3, history<int>)
PROP_INST(history_double, 2, history<double>)
PROP(hashing, 1) { std::size_t n = len(g); V<int> v = pick<int>(g, n); S<int> a = conv(v), b(CAP); b.fill(9); b = a; CHECK_EQ(sprout::to_hash(a), sprout::to_hash(b)); g.nontrivial(n > 1); }
PROP(makers, 1) {
	int a = int(g.draw(100)), b = int(g.draw(100)); auto m = sprout::make_valarray<int>(a, b, 3); CHECK_EQ(lst(m), (std::vector<int>{ a, b, 3 })); auto c = sprout::make_common_valarray(a, b); CHECK_EQ(lst(c), (std::vector<int>{ a, b }));
	int arr[3] = { a, b, 1 }; CHECK_EQ(lst(sprout::to_valarray(arr)), seq(arr, 3)); sprout::array<int, 3> sa = {{ a, b, 1 }}; CHECK_EQ(lst(sprout::to_valarray(sa)), seq(arr, 3)); std::array<int, 3> da = {{ a, b, 1 }}; CHECK_EQ(lst(sprout::to_valarray(da)), seq(arr, 3));
	g.nontrivial(true);
}
#endif
#if PART == 2
#define OPS(T, op) VEQ(T, a op b, x op y); VEQ(T, a op k, x op k); VEQ(T, k op b, k op y)
#define CMP(op) VEQ(bool, a op b, x op y); VEQ(bool, a op k, x op k); VEQ(bool, k op b, k op y)
#define ASG(op) { S<int> t = a; V<int> u = x; t op k; u op k; SAME(t, u); }
PROP(arithmetic_int, 3) {
	std::size_t n = len(g); V<int> x = pick<int>(g, n), y = pick<int>(g, n); int k; val(g, k); if (g.flag() && n) y = x; S<int> a = conv(x), b = conv(y); g.note("x", lst(x)); g.note("y", lst(y)); g.note("k", k);
	OPS(int, +); OPS(int, -); OPS(int, *); OPS(int, &); OPS(int, |); OPS(int, ^); CMP(==); CMP(!=); CMP(<); CMP(>); CMP(<=); CMP(>=); CMP(&&); CMP(||);
	VEQ(int, +a, +x); VEQ(int, -a, -x); VEQ(int, ~a, ~x); VEQ(bool, !a, !x);
	ASG(+=); ASG(-=); ASG(*=); ASG(&=); ASG(|=); ASG(^=);
	if (k) { VEQ(int, a / k, x / k); VEQ(int, a % k, x % k); ASG(/=); ASG(%=); }
	for (int& v : y) if (!v) v = 3; b = conv(y); VEQ(int, a / b, x / y); VEQ(int, a % b, x % y); VEQ(int, k / b, k / y); VEQ(int, k % b, k % y);
	for (int& v : y) v &= 7; for (int& v : x) v &= 1023; a = conv(x); b = conv(y); k &= 7; OPS(int, <<); OPS(int, >>); ASG(<<=); ASG(>>=);
	g.nontrivial(n > 1);
}
PROP(arithmetic_double, 2) {
	std::size_t n = len(g); V<double> x = pick<double>(g, n), y = pick<double>(g, n); double k; val(g, k); S<double> a = conv(x), b = conv(y); g.note("x", lst(x)); g.note("y", lst(y)); g.note("k", k);
	OPS(double, +); OPS(double, -); OPS(double, *); OPS(double, /); CMP(==); CMP(<); CMP(>=); VEQ(double, -a, -x); S<double> t = a; V<double> u = x; t /= k; u /= k; SAME(t, u); t *= k; u *= k; SAME(t, u);
	g.nontrivial(n > 1);
}
// the elementwise functions are the scalar ones over the elements
#define FN(f) { V<double> e(n); for (std::size_t i = 0; i < n; ++i) e[i] = sprout::f(x[i]); SAME(sprout::f(a), e); }
#define FN2(f) { V<double> e(n); for (std::size_t i = 0; i < n; ++i) e[i] = sprout::f(x[i], y[i]); SAME(sprout::f(a, b), e); for (std::size_t i = 0; i < n; ++i) e[i] = sprout::f(x[i], k); SAME(sprout::f(a, k), e); for (std::size_t i = 0; i < n; ++i) e[i] = sprout::f(k, y[i]); SAME(sprout::f(k, b), e); }
PROP(functions, 2) {
	std::size_t n = len(g); V<double> x = pick<double>(g, n), y = pick<double>(g, n); double k; val(g, k); S<double> a = conv(x), b = conv(y); g.note("x", lst(x)); g.note("y", lst(y)); g.note("k", k);
	FN(abs) FN(exp) FN(exp2) FN(expm1) FN(log) FN(log2) FN(log10) FN(log1p) FN(sin) FN(cos) FN(tan) FN(asin) FN(acos) FN(atan) FN(sinh) FN(cosh) FN(tanh) FN(asinh) FN(acosh) FN(atanh) FN(sqrt) FN(cbrt) FN(exp10)
	FN2(pow) FN2(atan2) FN2(hypot) FN2(log_a)
	g.nontrivial(n > 1);
}
#endif
#if PART == 3
typedef S<int> A; typedef V<int> B;
// any two views of one array, and everything a view can do
template<class F, class H> void view(G& g, B const& v0, std::vector<std::size_t> const& pos, F sv, H stdv) {
	std::size_t m = pos.size(); B xs = pick<int>(g, m); int x; val(g, x); A src = conv(v0); A const& csrc = src; B sel(m); for (std::size_t i = 0; i < m; ++i) sel[i] = v0[pos[i]];
	g.note("v", lst(v0)); g.note("pos", pos); g.note("xs", lst(xs));
	SAME(sv(csrc), sel); { A t = sv(src); SAME(t, sel); } { A t(int(9), CAP); t = sv(src); SAME(t, sel); }
	{ auto w = sv(src); CHECK_EQ(w.size(), m); CHECK_EQ(w.empty(), m == 0); std::vector<int> d(w.begin(), w.end()), e = lst(sel); CHECK_EQ(d, e); std::vector<int> r(w.rbegin(), w.rend()); CHECK_EQ(r, (std::vector<int>(e.rbegin(), e.rend()))); for (std::size_t i = 0; i < m; ++i) { CHECK(&w[i] == &src[pos[i]]); CHECK(&w.at(i) == &src[pos[i]]); CHECK(&*w.nth(i) == &src[pos[i]]); CHECK_EQ(w.index_of(w.begin() + i), i); } if (m) CHECK(&w.front() == &src[pos[0]] && &w.back() == &src[pos[m - 1]]); CHECK_THROWS(std::out_of_range, w.at(m)); CHECK_THROWS(std::out_of_range, w.nth(m)); }
#define UPD(op, pre) { A t = conv(v0); B u = v0, ys = xs; pre; A zs = conv(ys); sv(t) op zs; stdv(u) op ys; SAME(t, u); }
	UPD(=, ) UPD(+=, ) UPD(-=, ) UPD(*=, ) UPD(&=, ) UPD(|=, ) UPD(^=, )
	UPD(/=, for (int& y : ys) if (!y) y = 7) UPD(%=, for (int& y : ys) if (!y) y = 7)
	{ A t = conv(v0); B u = v0; for (int& y : u) y &= 255; t = conv(u); B ys = xs; for (int& y : ys) y &= 7; A zs = conv(ys); sv(t) <<= zs; stdv(u) <<= ys; SAME(t, u); sv(t) >>= zs; stdv(u) >>= ys; SAME(t, u); }
	{ A t = conv(v0); B u = v0; sv(t) = x; stdv(u) = x; SAME(t, u); }
	{ A t = conv(v0), o = conv(B(B(v0) + 100)); B u = v0, p = v0 + 100; auto w = sv(o); sv(t) = w; stdv(u) = B(stdv(p)); SAME(t, u); }
	g.nontrivial(m > 1);
}
PROP(slices, 3) {
	std::size_t n = 1 + std::size_t(g.draw(CAP)); B v = pick<int>(g, n); std::size_t st = g.draw(n), stride = 1 + g.draw(3), mx = (n - 1 - st) / stride + 1, m = g.draw(mx + 1); std::vector<std::size_t> pos; for (std::size_t i = 0; i < m; ++i) pos.push_back(st + i * stride);
	sprout::slice ss(st, m, stride); std::slice ds(st, m, stride);
	struct F { sprout::slice s; A operator()(A const& a) const { return a[s]; } sprout::slice_array<int, CAP> operator()(A& a) const { return a[s]; } } f = { ss }; struct H { std::slice s; std::slice_array<int> operator()(B& b) const { return b[s]; } } h = { ds };
	view(g, v, pos, f, h);
}
PROP(gslices, 3) {
	std::size_t n = 4 + std::size_t(g.draw(CAP - 3)); B v = pick<int>(g, n); std::size_t l0 = 1 + g.draw(2), l1 = 1 + g.draw(3), s1 = 1 + g.draw(2), s0 = l1 * s1 + g.draw(2); if (g.flag()) { std::swap(s0, s1); s0 = 1; s1 = l0; }
	std::size_t span = (l0 - 1) * s0 + (l1 - 1) * s1; if (span >= n) { l0 = 1; l1 = std::min<std::size_t>(l1, 2); s1 = 1; span = l1 - 1; } std::size_t st = g.draw(n - span); std::vector<std::size_t> pos; for (std::size_t i = 0; i < l0; ++i) for (std::size_t j = 0; j < l1; ++j) pos.push_back(st + i * s0 + j * s1);
	g.note("lens", std::vector<std::size_t>{ l0, l1 }); g.note("strides", std::vector<std::size_t>{ s0, s1 });
	sprout::gslice<2> ss(st, sprout::valarray<std::size_t, 2>{ l0, l1 }, sprout::valarray<std::size_t, 2>{ s0, s1 }); std::gslice ds(st, std::valarray<std::size_t>{ l0, l1 }, std::valarray<std::size_t>{ s0, s1 });
	struct F { sprout::gslice<2> s; A operator()(A const& a) const { return a[s]; } sprout::gslice_array<int, CAP, 2> operator()(A& a) const { return a[s]; } } f = { ss }; struct H { std::gslice s; std::gslice_array<int> operator()(B& b) const { return b[s]; } } h = { ds };
	view(g, v, pos, f, h);
}
PROP(masks, 3) {
	std::size_t n = len(g); B v = pick<int>(g, n); std::valarray<bool> mk(n); S<bool> sm(n); std::vector<std::size_t> pos; for (std::size_t i = 0; i < n; ++i) { mk[i] = g.flag(); sm[i] = mk[i]; if (mk[i]) pos.push_back(i); }
	struct F { S<bool> s; A operator()(A const& a) const { return a[s]; } sprout::mask_array<int, CAP, CAP> operator()(A& a) const { return a[s]; } } f = { sm }; struct H { std::valarray<bool> s; std::mask_array<int> operator()(B& b) const { return b[s]; } } h = { mk };
	view(g, v, pos, f, h);
}
PROP(indirects, 3) {
	std::size_t n = len(g); B v = pick<int>(g, n); std::vector<std::size_t> all; for (std::size_t i = 0; i < n; ++i) all.push_back(i); for (std::size_t i = n; i > 1; --i) std::swap(all[i - 1], all[g.draw(i)]); all.resize(std::size_t(g.draw(n + 1)));
	std::valarray<std::size_t> ix(all.size()); S<std::size_t> sx(all.size()); for (std::size_t i = 0; i < all.size(); ++i) { ix[i] = all[i]; sx[i] = all[i]; }
	struct F { S<std::size_t> s; A operator()(A const& a) const { return a[s]; } sprout::indirect_array<int, CAP, CAP> operator()(A& a) const { return a[s]; } } f = { sx }; struct H { std::valarray<std::size_t> s; std::indirect_array<int> operator()(B& b) const { return b[s]; } } h = { ix };
	view(g, v, all, f, h);
}
#endif
