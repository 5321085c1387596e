// Bit operations against a bit-by-bit model, for every integer width, signed and unsigned.
#include <sprout/bit/operation.hpp>
#include <sprout/bit/length.hpp>
#include <sprout/bit/reverse.hpp>
#include "pbt.hpp"
using namespace pbt;

template<class T> struct M {	// the two's complement bits of T
	enum { W = sizeof(T) * 8 };
	typedef typename std::make_unsigned<T>::type U;
	static bool bit(T x, int i) { return (uint64_t(U(x)) >> i) & 1; }
	static T of(std::vector<bool> const& b) { uint64_t v = 0; for (int i = 0; i < W; ++i) v |= uint64_t(b[i]) << i; return T(U(v)); }
	static std::vector<bool> bits(T x) { std::vector<bool> b(W); for (int i = 0; i < W; ++i) b[i] = bit(x, i); return b; }
	static int ntrail(T x, bool v) { int i = 0; while (i < W && bit(x, i) == v) ++i; return i; }
	static int nlead(T x, bool v) { int i = 0; while (i < W && bit(x, W - 1 - i) == v) ++i; return i; }
	static int count(T x) { int n = 0; for (int i = 0; i < W; ++i) n += bit(x, i); return n; }
	template<class F> static T map(T x, F f) { std::vector<bool> b = bits(x), r(W); for (int i = 0; i < W; ++i) r[i] = f(i, bool(b[i])); return of(r); }
};
template<class T> std::string sv(T x) { std::ostringstream o; o << "0x" << std::hex << uint64_t(typename std::make_unsigned<T>::type(x)); return o.str(); }

template<class T> T value(G& g) {
	typedef typename std::make_unsigned<T>::type U;
	int W = int(sizeof(T)) * 8;
	uint64_t v = 0;
	switch (g.draw(4)) {
	case 0: v = g.draw(0); break;
	case 1: { uint64_t n = 1 + g.draw(4); while (n--) v |= uint64_t(1) << g.draw(W); break; }
	case 2: { uint64_t a = g.draw(W), b = g.draw(W); v = (uint64_t(2) << a) - (uint64_t(1) << b); break; }
	default: v = ~(uint64_t(1) << g.draw(W)) >> g.draw(W); break;
	}
	if (g.chance(1, 4)) v = ~v;
	T r = T(U(v));
	g.nontrivial(U(v) != 0 && U(v + 1) != 0);
	return r;
}
#define BEQ(expr, want) do { T r_ = T(expr); T w_ = T(want); CHECK_MSG(r_ == w_, #expr << ": got " << sv(r_) << " expected " << sv(w_)); } while (0)

template<class T> void counts(G& g) {
	T x = value<T>(g); g.note("x", sv(x));
	CHECK_EQ(sprout::clz(x), (M<T>::nlead(x, 0)));
	CHECK_EQ(sprout::ctz(x), (M<T>::ntrail(x, 0)));
	CHECK_EQ(sprout::cntl0(x), (M<T>::nlead(x, 0)));
	CHECK_EQ(sprout::cntt0(x), (M<T>::ntrail(x, 0)));
	CHECK_EQ(sprout::cntl1(x), (M<T>::nlead(x, 1)));
	CHECK_EQ(sprout::cntt1(x), (M<T>::ntrail(x, 1)));
	CHECK_EQ(sprout::clrsb(x), (M<T>::nlead(x, M<T>::bit(x, M<T>::W - 1)) - 1));
	CHECK_EQ(sprout::popcount(x), M<T>::count(x));
	CHECK_EQ(sprout::parity(x), M<T>::count(x) % 2);
	CHECK_EQ(int(sprout::bit_length(x)), int(M<T>::W) - M<T>::nlead(x, 0));
	BEQ(sprout::bit_reverse(x), M<T>::map(x, [&](int i, bool) { return M<T>::bit(x, M<T>::W - 1 - i); }));
	int n = g.irange(1, M<T>::W); g.note("length", n);
	T low = M<T>::map(x, [&](int i, bool b) { return i < n && b; });
	BEQ(sprout::bit_reverse_in(low, n), M<T>::map(x, [&](int i, bool) { return i < n && M<T>::bit(x, n - 1 - i); }));
}
template<class T> void shifts(G& g) {
	enum { W = M<T>::W };
	T x = value<T>(g); int s = int(g.draw(W)); g.note("x", sv(x)); g.note("s", s);
	BEQ(sprout::shll(x, s), M<T>::map(x, [&](int i, bool) { return i >= s && M<T>::bit(x, i - s); }));
	BEQ(sprout::shal(x, s), M<T>::map(x, [&](int i, bool) { return i >= s && M<T>::bit(x, i - s); }));
	BEQ(sprout::shlr(x, s), M<T>::map(x, [&](int i, bool) { return i + s < W && M<T>::bit(x, i + s); }));
	BEQ(sprout::shar(x, s), M<T>::map(x, [&](int i, bool) { return M<T>::bit(x, std::min<int>(W - 1, i + s)); }));
	BEQ(sprout::rotl(x, s), M<T>::map(x, [&](int i, bool) { return M<T>::bit(x, (i + W - s) % W); }));
	BEQ(sprout::rotr(x, s), M<T>::map(x, [&](int i, bool) { return M<T>::bit(x, (i + s) % W); }));
}
template<class T> void single(G& g) {
	enum { W = M<T>::W };
	T x = value<T>(g); int b = int(g.draw(W)); g.note("x", sv(x)); g.note("b", b);
	CHECK_EQ(bool(sprout::testbit(x, b)), (M<T>::bit(x, b)));
	BEQ(sprout::setbit(x, b), M<T>::map(x, [&](int i, bool v) { return i == b || v; }));
	BEQ(sprout::rstbit(x, b), M<T>::map(x, [&](int i, bool v) { return i != b && v; }));
	BEQ(sprout::flipbit(x, b), M<T>::map(x, [&](int i, bool v) { return (i == b) != v; }));
	BEQ(sprout::setbitsge(x, b), M<T>::map(x, [&](int i, bool v) { return i >= b || v; }));
	BEQ(sprout::rstbitsge(x, b), M<T>::map(x, [&](int i, bool v) { return !(i >= b) && v; }));
	BEQ(sprout::flipbitsge(x, b), M<T>::map(x, [&](int i, bool v) { return (i >= b) != v; }));
	BEQ(sprout::setbitsle(x, b), M<T>::map(x, [&](int i, bool v) { return i <= b || v; }));
	BEQ(sprout::rstbitsle(x, b), M<T>::map(x, [&](int i, bool v) { return !(i <= b) && v; }));
	BEQ(sprout::flipbitsle(x, b), M<T>::map(x, [&](int i, bool v) { return (i <= b) != v; }));
}
template<class T> void rightmost(G& g) {
	T x = value<T>(g); g.note("x", sv(x));
	int t0 = M<T>::ntrail(x, 0), t1 = M<T>::ntrail(x, 1);
	BEQ(sprout::isols1b(x), M<T>::map(x, [&](int i, bool) { return i == t0; }));
	BEQ(sprout::isols0b(x), M<T>::map(x, [&](int i, bool) { return i == t1; }));
	BEQ(sprout::rstls1b(x), M<T>::map(x, [&](int i, bool v) { return i != t0 && v; }));
	BEQ(sprout::setls0b(x), M<T>::map(x, [&](int i, bool v) { return i == t1 || v; }));
	BEQ(sprout::maskt0(x), M<T>::map(x, [&](int i, bool) { return i < t0; }));
	BEQ(sprout::maskt1(x), M<T>::map(x, [&](int i, bool) { return i < t1; }));
	BEQ(sprout::maskt0ls1b(x), M<T>::map(x, [&](int i, bool) { return i <= t0; }));
	BEQ(sprout::maskt1ls0b(x), M<T>::map(x, [&](int i, bool) { return i <= t1; }));
	BEQ(sprout::rstt1(x), M<T>::map(x, [&](int i, bool v) { return i >= t1 && v; }));
	BEQ(sprout::sett0(x), M<T>::map(x, [&](int i, bool v) { return i < t0 || v; }));
}
#define FAM(f) \
	PROP_INST(f##_u8, 1, f<unsigned char>) PROP_INST(f##_u16, 1, f<unsigned short>) PROP_INST(f##_u32, 1, f<unsigned>) PROP_INST(f##_ul, 1, f<unsigned long>) PROP_INST(f##_ull, 1, f<unsigned long long>) \
	PROP_INST(f##_s8, 1, f<signed char>) PROP_INST(f##_s16, 1, f<short>) PROP_INST(f##_s32, 1, f<int>) PROP_INST(f##_sl, 1, f<long>) PROP_INST(f##_sll, 1, f<long long>)
FAM(counts) FAM(shifts) FAM(single) FAM(rightmost)
