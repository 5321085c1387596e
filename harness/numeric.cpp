// Numeric algorithms against sequential reference definitions; Fourier transforms against the definition in long double.
#include "iters.hpp"
#include <complex>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/complex.hpp>
#include <sprout/numeric.hpp>
#include <sprout/numeric/dft.hpp>
#include <sprout/numeric/fft.hpp>
#include <sprout/numeric/fft/cxx14/fft.hpp>
#include <sprout/numeric/fft/cxx14/ifft.hpp>
#include <sprout/numeric/fft/fixed/fft.hpp>
#include <sprout/numeric/fft/fixed/ifft.hpp>
using namespace ck;
using pbt::G;
namespace {
	typedef long long I;
	struct Fold { constexpr I operator()(I a, I b) const { return (a * 31 + b) % 1000003; } };	// neither associative nor commutative
	struct Mix { constexpr I operator()(I a, I b) const { return (a * 7 - b) % 10007; } };
	struct Neg { constexpr I operator()(I a) const { return 3 - a * 2; } };
	struct Af {	// x -> a x + b: composition is associative but not commutative
		I a, b; constexpr Af() : a(1), b(0) {} constexpr Af(I x, I y) : a(x), b(y) {}
		friend constexpr bool operator==(Af const& x, Af const& y) { return x.a == y.a && x.b == y.b; }
		friend constexpr Af operator+(Af const& x, Af const& y) { return Af(x.a * y.a % 1009, (x.b * y.a + y.b) % 1009); }
		friend constexpr Af operator-(Af const& x, Af const& y) { return Af((x.a - y.a) % 1009, (x.b * 2 - y.b) % 1009); }
	};
	std::ostream& operator<<(std::ostream& o, Af const& x) { return o << "(" << x.a << "," << x.b << ")"; }
	struct Comp { constexpr Af operator()(Af const& x, Af const& y) const { return x + y; } };
	struct Tw { constexpr Af operator()(Af const& x) const { return Af(x.b + 1, x.a); } };
	std::vector<I> values(G& g, size_t maxn) { std::vector<int> k = g.vec(maxn); std::vector<I> v(k.begin(), k.end()); g.note("v", v); g.nontrivial(v.size() > 1); return v; }
	std::vector<Af> maps(G& g, size_t maxn) { size_t n = g.size(maxn); std::vector<Af> v; while (n--) { I a = g.irange(0, 9); I b = g.irange(0, 9); v.push_back(Af(a, b)); } g.note("v", v); g.nontrivial(v.size() > 1); return v; }

	template<class K> void folds(G& g) {
		std::vector<I> v = values(g, 300), u; for (size_t i = 0; i < v.size(); ++i) u.push_back(I(i * i % 11) - 4);
		typename K::template R<I> s(v), t(u); I init = g.irange(-5, 5);
		I w = init; for (I x : v) w = Fold()(w, x); CHECK_EQ(sprout::accumulate(s.begin(), s.end(), init, Fold()), w);
		w = init; for (I x : v) w += x; CHECK_EQ(sprout::accumulate(s.begin(), s.end(), init), w); CHECK_EQ(sprout::reduce(s.begin(), s.end(), init), w); CHECK_EQ(sprout::reduce(s.begin(), s.end()), w - init);
		CHECK_EQ(sprout::reduce(s.begin(), s.end(), init, std::plus<I>()), w);
		w = init; for (size_t i = 0; i < v.size(); ++i) w += v[i] * u[i]; CHECK_EQ(sprout::inner_product(s.begin(), s.end(), t.begin(), init), w); CHECK_EQ(sprout::transform_reduce(s.begin(), s.end(), t.begin(), init), w);
		w = init; for (size_t i = 0; i < v.size(); ++i) w = Fold()(w, Mix()(v[i], u[i])); CHECK_EQ(sprout::inner_product(s.begin(), s.end(), t.begin(), init, Fold(), Mix()), w);
		w = init; for (size_t i = 0; i < v.size(); ++i) w += Mix()(v[i], u[i]); CHECK_EQ(sprout::transform_reduce(s.begin(), s.end(), t.begin(), init, std::plus<I>(), Mix()), w);
		w = init; for (I x : v) w += Neg()(x); CHECK_EQ(sprout::transform_reduce(s.begin(), s.end(), init, std::plus<I>(), Neg()), w);
	}
	// reference definitions (inclusive scans with an initial value put that value out first)
	template<class T, class F> std::vector<T> psum(std::vector<T> v, F f) { for (size_t i = 1; i < v.size(); ++i) v[i] = f(v[i - 1], v[i]); return v; }
	template<class T, class F> std::vector<T> adiff(std::vector<T> const& v, F f) { std::vector<T> r(v); for (size_t i = 1; i < v.size(); ++i) r[i] = f(v[i], v[i - 1]); return r; }
	template<class T, class F> std::vector<T> iscan(std::vector<T> const& v, F f, T const* init) { std::vector<T> r; T a = init ? *init : T(); if (init) r.push_back(a); for (size_t i = 0; i < v.size(); ++i) { a = (i == 0 && !init) ? v[0] : f(a, v[i]); r.push_back(a); } return r; }
	template<class T, class F> std::vector<T> escan(std::vector<T> const& v, F f, T init) { std::vector<T> r; for (T const& x : v) { r.push_back(init); init = f(init, x); } return r; }
	template<class T, class U> std::vector<T> tr(std::vector<T> v, U u) { for (T& x : v) x = u(x); return v; }

#define INTO(call, want) do { std::vector<Af> w_ = (want); std::vector<Af> buf_(w_.size() + 2, Af(-1, -1)); Af* out = buf_.data() + 1; Af* e_ = (call); \
	CHECK_EQ(long(e_ - out), long(w_.size())); CHECK_EQ(std::vector<Af>(out, e_), w_); CHECK(buf_.front() == Af(-1, -1)); CHECK(buf_.back() == Af(-1, -1)); } while (0)
	template<class K> void scans(G& g) {
		std::vector<Af> v = maps(g, 40); typename K::template R<Af> s(v); Af init(g.irange(0, 9), g.irange(0, 9)); g.note("init", init);
		auto b = s.begin(); auto e = s.end();
		INTO(sprout::partial_sum(b, e, out), psum(v, Comp()));
		INTO(sprout::partial_sum(b, e, out, Comp()), psum(v, Comp()));
		INTO(sprout::adjacent_difference(b, e, out), adiff(v, std::minus<Af>()));
		INTO(sprout::adjacent_difference(b, e, out, Comp()), adiff(v, Comp()));
		INTO(sprout::inclusive_scan(b, e, out), iscan<Af>(v, Comp(), 0));
		INTO(sprout::inclusive_scan(b, e, out, Comp()), iscan<Af>(v, Comp(), 0));
		INTO(sprout::inclusive_scan(b, e, out, Comp(), init), iscan(v, Comp(), &init));
		INTO(sprout::exclusive_scan(b, e, out, init), escan(v, Comp(), init));
		INTO(sprout::exclusive_scan(b, e, out, init, Comp()), escan(v, Comp(), init));
		INTO(sprout::transform_inclusive_scan(b, e, out, Comp(), Tw()), iscan<Af>(tr(v, Tw()), Comp(), 0));
		INTO(sprout::transform_inclusive_scan(b, e, out, Comp(), Tw(), init), iscan(tr(v, Tw()), Comp(), &init));
		INTO(sprout::transform_exclusive_scan(b, e, out, init, Comp(), Tw()), escan(tr(v, Tw()), Comp(), init));
		std::vector<I> n(g.size(30), -1), w(n); I a = g.irange(-3, 9); for (size_t i = 0; i < w.size(); ++i) w[i] = a + I(i);
		sprout::iota(n.begin(), n.end(), a); CHECK_EQ(n, w);
	}
	// the same returning containers
	template<class R> std::vector<Af> vec(R const& r) { std::vector<Af> v; for (auto i = r.begin(); i != r.end(); ++i) v.push_back(*i); return v; }
	std::vector<Af> overlay(std::vector<Af> base, std::vector<Af> const& out, bool fit) { size_t n = std::min(base.size(), out.size()); for (size_t i = 0; i < n; ++i) base[i] = out[i]; if (fit) base.resize(n); return base; }
	template<size_t N> struct Arr { typedef sprout::array<Af, N> type; type a; std::vector<Af> v; explicit Arr(G&) { for (size_t i = 0; i < N; ++i) { a[i] = Af(100 + I(i), 7); v.push_back(a[i]); } } };
	struct Sub { typedef sprout::sub_array<sprout::array<Af, 9> > type; Arr<9> u; size_t lo, hi; type a; std::vector<Af> v; explicit Sub(G& g) : u(g), lo(g.draw(10)), hi(lo + g.draw(10 - lo)), a(u.a, lo, hi) { g.note("lo", lo); g.note("hi", hi); v.assign(u.v.begin() + lo, u.v.begin() + hi); } };
#define BOTH(call, want) do { { namespace X = sprout::fixed; CHECK_EQ(vec(X::call), overlay(c.v, want, false)); } { namespace X = sprout::fit; CHECK_EQ(vec(X::call), overlay(c.v, want, true)); } } while (0)
	template<class K, class A> void containers(G& g) {
		std::vector<Af> v = maps(g, 14); typename K::template R<Af> s(v); Af init(g.irange(0, 9), g.irange(0, 9)); A c(g); g.note("init", init);
		auto b = s.begin(); auto e = s.end();
		BOTH(partial_sum(b, e, c.a), psum(v, Comp()));
		BOTH(partial_sum(b, e, c.a, Comp()), psum(v, Comp()));
		BOTH(adjacent_difference(b, e, c.a), adiff(v, std::minus<Af>()));
		BOTH(adjacent_difference(b, e, c.a, Comp()), adiff(v, Comp()));
		BOTH(inclusive_scan(b, e, c.a), iscan<Af>(v, Comp(), 0));
		BOTH(inclusive_scan(b, e, c.a, Comp()), iscan<Af>(v, Comp(), 0));
		BOTH(inclusive_scan(b, e, c.a, Comp(), init), iscan(v, Comp(), &init));
		BOTH(exclusive_scan(b, e, c.a, init), escan(v, Comp(), init));
		BOTH(exclusive_scan(b, e, c.a, init, Comp()), escan(v, Comp(), init));
		BOTH(transform_inclusive_scan(b, e, c.a, Comp(), Tw()), iscan<Af>(tr(v, Tw()), Comp(), 0));
		BOTH(transform_inclusive_scan(b, e, c.a, Comp(), Tw(), init), iscan(tr(v, Tw()), Comp(), &init));
		BOTH(transform_exclusive_scan(b, e, c.a, init, Comp(), Tw()), escan(tr(v, Tw()), Comp(), init));
	}
	// ---- Fourier transforms
	typedef sprout::complex<double> C; typedef std::complex<long double> L;
	std::vector<C> signal(G& g, size_t n) { std::vector<C> v; for (size_t i = 0; i < n; ++i) { double a = g.irange(-8, 8) / 4.0, b = g.chance(1, 2) ? g.irange(-8, 8) / 4.0 : 0; v.push_back(C(a, b)); } g.nontrivial(n > 1); return v; }
	std::vector<L> ref(std::vector<C> const& v, int sign) {
		size_t n = v.size(); std::vector<L> r(n);
		for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < n; ++j) { long double t = sign * 2 * 3.14159265358979323846264338327950288L * ((k * j) % n) / n; r[k] += L(v[j].real(), v[j].imag()) * L(cosl(t), sinl(t)); }
		if (sign > 0) for (L& x : r) x /= (long double)(n);
		return r;
	}
	template<class It> void near(It b, std::vector<L> const& w, double scale) {
		for (size_t i = 0; i < w.size(); ++i, ++b) { double d = double(std::abs(L(b->real(), b->imag()) - w[i])); CHECK_MSG(d <= scale, "bin " << i << ": got (" << b->real() << "," << b->imag() << ") expected " << w[i]); }
	}
	template<size_t N> void dft(G& g) {
		std::vector<C> v = signal(g, N); sprout::array<C, N> a; for (size_t i = 0; i < N; ++i) a[i] = v[i];
		double tol = 1e-11 * N * N;
		auto f = sprout::fixed::dft(a.begin(), a.end(), sprout::array<C, N>()); near(f.begin(), ref(v, -1), tol);
		auto i = sprout::fixed::idft(a.begin(), a.end(), sprout::array<C, N>()); near(i.begin(), ref(v, 1), tol);
		auto rt = sprout::fixed::idft(f.begin(), f.end(), sprout::array<C, N>()); for (size_t k = 0; k < N; ++k) CHECK(std::abs(rt[k].real() - v[k].real()) + std::abs(rt[k].imag() - v[k].imag()) < tol);
		size_t k = g.draw(N); C e = sprout::dft_element(a.begin(), a.end(), std::ptrdiff_t(k)); near(&e, std::vector<L>(1, ref(v, -1)[k]), tol);
		C ie = sprout::idft_element(a.begin(), a.end(), std::ptrdiff_t(k)); near(&ie, std::vector<L>(1, ref(v, 1)[k]), tol);
	}
	void fft(G& g) {
		size_t n = size_t(1) << g.draw(9); std::vector<C> v = signal(g, n), w(v); g.note("n", n);
		sprout::fft(w.begin(), w.end()); near(w.begin(), ref(v, -1), 1e-11 * n * 10);
		w = v; sprout::ifft(w.begin(), w.end()); near(w.begin(), ref(v, 1), 1e-11 * n * 10);
	}
	template<size_t N> void ffixed(G& g) {
		std::vector<C> v = signal(g, N); sprout::array<C, N> a; for (size_t i = 0; i < N; ++i) a[i] = v[i];
		auto f = sprout::fixed::fft<sprout::array<C, N> >(a); near(f.begin(), ref(v, -1), 1e-11 * N * 10);
		auto i = sprout::fixed::ifft<sprout::array<C, N> >(a); near(i.begin(), ref(v, 1), 1e-11 * N * 10);
	}
	void waves(G& g) {
		double f = g.irange(1, 9), amp = g.irange(1, 8) / 2.0, ph = g.irange(-4, 4) / 4.0; size_t n = 2 + g.draw(30); g.nontrivial(true); g.note("f", f); g.note("amp", amp); g.note("phase", ph); g.note("n", n);
		std::vector<double> v(n, -99); sprout::sinusoid(v.begin(), v.end(), f, amp, ph);
		for (size_t i = 0; i < n; ++i) CHECK(std::abs(v[i] - amp * std::sin(2 * 3.14159265358979323846 * f * double(i) / double(n) + ph)) < 1e-9);
		std::vector<C> c; for (size_t i = 0; i < n; ++i) { double a = g.irange(-8, 8), b = g.irange(-8, 8); c.push_back(C(a, b)); } std::vector<double> am(n, -1), p(n, -1), sp(n, -1);
		CHECK(sprout::amplitude_spectrum(c.begin(), c.end(), am.begin()) == am.end()); CHECK(sprout::phase_spectrum(c.begin(), c.end(), p.begin()) == p.end());
		for (size_t i = 0; i < n; ++i) { CHECK(std::abs(am[i] - std::hypot(c[i].real(), c[i].imag())) < 1e-9); CHECK(std::abs(p[i] - std::atan2(c[i].imag(), c[i].real())) < 1e-9); }
	}
}
PROP_KINDS6(folds, 1)
PROP_KINDS6(scans, 1)
#ifndef NO_CONT
PROP_INST(cont_8_ra, 1, (containers<KRa, Arr<8> >)) PROP_INST(cont_8_fw, 1, (containers<KFw, Arr<8> >)) PROP_INST(cont_s9, 1, (containers<KPtr, Sub>)) PROP_INST(cont_3, 1, (containers<KPtr, Arr<3> >))
#endif
PROP_INST(dft_2, 0.2, dft<2>) PROP_INST(dft_5, 0.5, dft<5>) PROP_INST(dft_8, 0.5, dft<8>) PROP_INST(dft_12, 0.3, dft<12>)
PROP_INST(fft_inplace, 0.5, fft)
PROP_INST(fft_fixed_8, 0.5, ffixed<8>) PROP_INST(fft_fixed_16, 0.2, ffixed<16>)
PROP_INST(wave_spectrum, 0.5, waves)
