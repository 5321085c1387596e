// sprout::basic_string against std::basic_string with a capacity: stateful histories and every query member.
#include "pbt.hpp"
#include <sstream>
#include <sprout/string.hpp>
#include <sprout/string/shift_concat.hpp>
#include <sprout/string/io.hpp>
#include <sprout/functional/hash.hpp>
#include <list>
#include <forward_list>
#include <iterator>
using pbt::G;
namespace {
	template<class C> std::basic_string<C> alpha() { std::basic_string<C> r; r += C('a'); r += C('b'); r += C('c'); r += C(sizeof(C) > 1 ? 0x3042 : 0xE3); return r; }
	template<class C> std::basic_string<C> gen(G& g, size_t maxn) { std::basic_string<C> al = alpha<C>(); if (g.chance(1, 2)) al.resize(2); return g.str(maxn, al); }
	template<class C> struct show_s { };
	template<class C> std::vector<long> codes(std::basic_string<C> const& s) { return std::vector<long>(s.begin(), s.end()); }
	inline std::string codes(std::string const& s) { return s; }

	// the observable state of a sprout string
	template<class C, size_t N> void same_state(sprout::basic_string<C, N> const& s, std::basic_string<C> const& m) {
		typedef std::basic_string<C> S;
		CHECK_EQ(s.size(), m.size()); CHECK_EQ(s.length(), m.size()); CHECK_EQ(s.empty(), m.empty()); CHECK_EQ(s.max_size(), N); CHECK_EQ(s.capacity(), N);
		CHECK_EQ(codes(S(s.data(), s.size())), codes(m));
		CHECK_EQ(codes(S(s.c_str())), codes(m));	// terminated at size()
		CHECK_EQ(long(s.c_str()[s.size()]), 0L);
		S it(s.begin(), s.end()); CHECK(it == m);
		S ci(s.cbegin(), s.cend()); CHECK(ci == m);
		S ri(s.crbegin(), s.crend()); CHECK(ri == S(m.rbegin(), m.rend()));
		for (size_t i = 0; i < m.size(); ++i) { CHECK(s[i] == m[i]); CHECK(s.at(i) == m[i]); CHECK(*s.nth(i) == m[i]); CHECK_EQ(size_t(s.index_of(s.nth(i))), i); }
		CHECK_THROWS(std::out_of_range, s.at(m.size())); CHECK_THROWS(std::out_of_range, s.at(m.size() + 1)); CHECK_THROWS(std::out_of_range, s.at(size_t(-1)));
		if (!m.empty()) { CHECK(s.front() == m.front()); CHECK(s.back() == m.back()); }
	}
	template<class C, size_t N> sprout::basic_string<C, N> mk(std::basic_string<C> const& s) { return sprout::basic_string<C, N>(s.c_str()); }

	template<class C> struct InIt {	// single-pass source
		typedef std::input_iterator_tag iterator_category; typedef C value_type; typedef std::ptrdiff_t difference_type; typedef C const* pointer; typedef C const& reference;
		C const* p; reference operator*() const { return *p; } InIt& operator++() { ++p; return *this; } InIt operator++(int) { InIt t = *this; ++p; return t; }
		bool operator==(InIt const& o) const { return p == o.p; } bool operator!=(InIt const& o) const { return p != o.p; }
	};

	template<class C, size_t N> void history(G& g) {
		typedef std::basic_string<C> S; typedef sprout::basic_string<C, N> X;
		S m = gen<C>(g, N); X s = mk<C, N>(m); g.note("init", codes(m));
		same_state(s, m);
		int steps = int(1 + g.draw(12)); int eff = 0;
		for (int k = 0; k < steps; ++k) {
			int op = int(g.draw(25));
			S a = gen<C>(g, N + 2), before = m; bool over = false, loose = false, threw = false;
			size_t n = g.draw(N + 3), pos = g.draw(N + 2); C c = alpha<C>()[size_t(g.draw(4))];
			g.note("op", op); g.note("a", codes(a)); g.note("n", n); g.note("pos", pos); g.note("c", long(c));
			sprout::basic_string<C, N + 2> w = mk<C, N + 2>(a);
			try {
				switch (op) {
				case 0: over = a.size() > N; if (!over) m = a; s.assign(a.data(), a.size()); break;
				case 1: over = a.size() > N; if (!over) m = a; s.assign(a.c_str()); break;
				case 2: over = m.size() + a.size() > N; if (!over) m += a; s.append(a.data(), a.size()); break;
				case 3: over = m.size() + a.size() > N; if (!over) m += a; s.append(a.c_str()); break;
				case 4: over = m.size() + n > N; if (!over) m.append(n, c); s.append(n, c); break;
				case 5: over = n > N; if (!over) m.assign(n, c); s.assign(n, c); break;
				case 6: over = m.size() + 1 > N; if (!over) m.push_back(c); s.push_back(c); break;
				case 7: if (!m.empty()) { m.pop_back(); s.pop_back(); } break;
				case 8: m.clear(); s.clear(); break;
				case 9: over = n > N; if (!over) m.resize(n, c); s.resize(n, c); break;
				case 10: if (n < m.size()) { m.resize(n); s.resize(n); } break;
				case 11: over = a.size() > N; if (!over) m = a; s = w; break;
				case 12: over = m.size() + a.size() > N; if (!over) m += a; s.append(w); break;
				case 13: if (pos <= a.size()) { over = m.size() + a.substr(pos, n).size() > N; if (!over) m.append(a, pos, n); } else over = true; s.append(w, pos, n); break;
				case 14: if (pos <= a.size()) { over = a.substr(pos, n).size() > N; if (!over) m.assign(a, pos, n); } else over = true; s.assign(w, pos, n); break;
				case 15: { std::list<C> l(a.begin(), a.end()); over = a.size() > N; if (!over) m = a; s.assign(l.begin(), l.end()); break; }
				case 16: { std::list<C> l(a.begin(), a.end()); over = m.size() + a.size() > N; if (!over) m += a; s.append(l.begin(), l.end()); break; }
				case 17: { InIt<C> b = {a.data()}, e = {a.data() + a.size()}; loose = over = a.size() > N; if (!over) m = a; s.assign(b, e); break; }
				case 18: { InIt<C> b = {a.data()}, e = {a.data() + a.size()}; loose = over = m.size() + a.size() > N; if (!over) m += a; s.append(b, e); break; }
				case 19: { S b = gen<C>(g, N); X o = mk<C, N>(b); s.swap(o); same_state(o, m); m = b; if (g.flag()) { using sprout::swap; swap(s, o); swap(o, s); } break; }
				case 20: over = m.size() + 1 > N; if (!over) m.insert(m.begin(), c); s >>= c; break;
				case 21: over = m.size() + a.size() > N; if (!over) m.insert(0, a); if (g.flag()) s >>= w; else s >>= a.c_str(); break;
				case 22: over = m.size() + a.size() > N; if (!over) m += a; if (g.flag()) s <<= w; else s <<= a.c_str(); break;
				case 23: if (!m.empty()) { size_t i = pos % m.size(); m[i] = c; switch (n % 3) { case 0: s[i] = c; break; case 1: s.at(i) = c; break; default: *s.nth(i) = c; } } break;
				case 24: { X o(s); if (pos <= m.size()) { m.assign(S(m), pos, n); s.assign(s, pos, n); } else over = true, s.assign(s, pos, n); break; }	// from itself
				}
			} catch (std::length_error const&) { threw = true; } catch (std::out_of_range const&) { threw = true; }
			if (threw != over) pbt::fail(__FILE__, __LINE__, threw ? "threw although the result fits" : "did not throw although the result does not fit");
			if (threw) {
				if (loose) { CHECK(s.size() <= N); CHECK(s.c_str()[s.size()] == C()); s = mk<C, N>(m); }
			} else if (m != before) ++eff;
			same_state(s, m);
		}
		g.nontrivial(eff > 0);
	}
	PROP_INST(history_0, 1, history<char, 1>) PROP_INST(history_5, 3, history<char, 5>) PROP_INST(history_16, 4, history<char, 16>) PROP_INST(history_u32, 3, history<char32_t, 7>) PROP_INST(history_w, 2, history<wchar_t, 33>)

	template<class C, size_t N> void queries(G& g) {
		typedef std::basic_string<C> S; typedef sprout::basic_string<C, N> X;
		S m = gen<C>(g, N), a = g.chance(1, 4) ? S() : gen<C>(g, 6);
		if (g.chance(1, 3) && !m.empty()) { size_t i = g.draw(m.size()); a = m.substr(i, g.draw(m.size() - i + 1)); }
		size_t pos = g.chance(1, 6) ? S::npos : size_t(g.draw(N + 3)), n = g.chance(1, 6) ? S::npos : size_t(g.draw(N + 2)), p2 = g.draw(N + 1), n2 = g.chance(1, 6) ? S::npos : size_t(g.draw(N + 2)); C c = alpha<C>()[size_t(g.draw(4))];
		size_t cnt = a.empty() ? 0 : size_t(g.draw(a.size() + 1));
		g.note("m", codes(m)); g.note("a", codes(a)); g.note("pos", pos); g.note("n", n); g.note("p2", p2); g.note("n2", n2); g.note("c", long(c)); g.note("cnt", cnt);
		g.nontrivial(m.size() > 1 && !a.empty());
		X const s = mk<C, N>(m); sprout::basic_string<C, N + 3> const b(a.c_str());
#define Q(f) CHECK_EQ(s.f(b, pos), m.f(a, pos)); CHECK_EQ(s.f(b), m.f(a)); CHECK_EQ(s.f(a.c_str(), pos), m.f(a.c_str(), pos)); CHECK_EQ(s.f(a.c_str()), m.f(a.c_str())); CHECK_EQ(s.f(a.c_str(), pos, cnt), m.f(a.c_str(), pos, cnt)); CHECK_EQ(s.f(c, pos), m.f(c, pos)); CHECK_EQ(s.f(c), m.f(c)); \
		CHECK_EQ(s.f(b.begin(), pos, cnt), m.f(a.c_str(), pos, cnt)); CHECK_EQ(s.f(b.begin(), pos), m.f(a.c_str(), pos));
		Q(find) Q(rfind) Q(find_first_of) Q(find_last_of) Q(find_first_not_of) Q(find_last_not_of)
#define SG(x) ((x) < 0 ? -1 : (x) > 0)
		CHECK_EQ(SG(s.compare(b)), SG(m.compare(a))); CHECK_EQ(SG(s.compare(a.c_str())), SG(m.compare(a)));
		int want = 2; try { want = SG(m.compare(pos, n, a)); } catch (std::out_of_range const&) {}
#define TRY(e) int got = 2; try { got = SG(e); } catch (std::out_of_range const&) {}
		{ TRY(s.compare(pos, n, b)) CHECK_EQ(got, want); } { TRY(s.compare(pos, n, a.c_str())) CHECK_EQ(got, want); }
		want = 2; try { want = SG(m.compare(pos, n, a, p2, n2)); } catch (std::out_of_range const&) {}
		{ TRY(s.compare(pos, n, b, p2, n2)) CHECK_EQ(got, want); }
		want = 2; try { want = SG(m.compare(pos, n, a.c_str(), cnt)); } catch (std::out_of_range const&) {}
		{ TRY(s.compare(pos, n, a.c_str(), cnt)) CHECK_EQ(got, want); }
		CHECK_EQ(s == b, m == a); CHECK_EQ(s != b, m != a); CHECK_EQ(s < b, m < a); CHECK_EQ(s > b, m > a); CHECK_EQ(s <= b, m <= a); CHECK_EQ(s >= b, m >= a);
		CHECK_EQ(s == a.c_str(), m == a); CHECK_EQ(s != a.c_str(), m != a); CHECK_EQ(s < a.c_str(), m < a); CHECK_EQ(s > a.c_str(), m > a); CHECK_EQ(s <= a.c_str(), m <= a); CHECK_EQ(s >= a.c_str(), m >= a);
		CHECK_EQ(a.c_str() == s, a == m); CHECK_EQ(a.c_str() != s, a != m); CHECK_EQ(a.c_str() < s, a < m); CHECK_EQ(a.c_str() > s, a > m); CHECK_EQ(a.c_str() <= s, a <= m); CHECK_EQ(a.c_str() >= s, a >= m);
		CHECK(s == m.c_str());
		// substr, copy
		{ bool t = false; try { X u = s.substr(pos, n); CHECK(pos <= m.size()); same_state(u, m.substr(pos, n)); } catch (std::out_of_range const&) { t = true; } CHECK_EQ(t, pos > m.size()); }
		if (pos <= m.size()) { C buf[N + 4], ref[N + 4]; std::fill(buf, buf + N + 4, C('#')); std::fill(ref, ref + N + 4, C('#')); CHECK_EQ(s.copy(buf, n, pos), m.copy(ref, n, pos)); CHECK(std::equal(buf, buf + N + 4, ref)); X u(s, pos, n); same_state(u, m.substr(pos, n)); }
		// construction
		same_state(X(m.begin(), m.end()), m); { std::list<C> l(m.begin(), m.end()); same_state(X(l.begin(), l.end()), m); }
		{ InIt<C> x = {m.data()}, y = {m.data() + m.size()}; same_state(X(x, y), m); }
		same_state(X(m.c_str(), m.size()), m); same_state(X::from_c_str(m.c_str()), m); same_state(X(m.size(), c), S(m.size(), c));
		same_state(sprout::basic_string<C, N + 3>(s), m);
		{ bool t = false; S big = m + a; try { X u(big.c_str()); same_state(u, big); } catch (std::length_error const&) { t = true; } CHECK_EQ(t, big.size() > N); }
		{ bool t = false; S big = m + a; std::list<C> l(big.begin(), big.end()); try { X u(l.begin(), l.end()); same_state(u, big); } catch (std::length_error const&) { t = true; } CHECK_EQ(t, big.size() > N); }
		// concatenation
		same_state(s + b, m + a); same_state(s + c, m + c); same_state(c + s, c + m);
		{ C lit[4] = {alpha<C>()[0], alpha<C>()[1], c, 0}; if (g.flag()) lit[g.draw(3)] = 0; same_state(s + lit, m + lit); same_state(lit + s, lit + m); }
		{ bool t = false; try { X u = s << b; same_state(u, m + a); } catch (std::length_error const&) { t = true; } CHECK_EQ(t, m.size() + a.size() > N); }
		{ bool t = false; try { X u = s >> b; same_state(u, a + m); } catch (std::length_error const&) { t = true; } CHECK_EQ(t, m.size() + a.size() > N); }
		{ bool t = false; try { X u = s << a.c_str(); same_state(u, m + a); } catch (std::length_error const&) { t = true; } CHECK_EQ(t, m.size() + a.size() > N); }
		{ bool t = false; try { X u = s >> a.c_str(); same_state(u, a + m); } catch (std::length_error const&) { t = true; } CHECK_EQ(t, m.size() + a.size() > N); }
		{ bool t = false; try { X u = s << c; same_state(u, m + c); } catch (std::length_error const&) { t = true; } CHECK_EQ(t, m.size() + 1 > N); }
		{ bool t = false; try { X u = s >> c; same_state(u, c + m); } catch (std::length_error const&) { t = true; } CHECK_EQ(t, m.size() + 1 > N); }
		// hashing respects equality
		{ X u = mk<C, N>(m); CHECK_EQ(sprout::to_hash(u), sprout::to_hash(s)); CHECK_EQ(std::hash<X>()(u), sprout::hash<X>()(s)); CHECK_EQ(sprout::to_hash(sprout::basic_string<C, N + 3>(s)), sprout::to_hash(s)); }
	}
	PROP_INST(queries_8, 5, queries<char, 8>) PROP_INST(queries_24, 3, queries<char, 24>) PROP_INST(queries_u16, 2, queries<char16_t, 9>)

	PROP(streams, 2) {
		std::string m = gen<char>(g, 12), a = gen<char>(g, 14); size_t w = g.draw(10); g.note("m", m); g.note("a", a); g.note("w", w); g.nontrivial(!a.empty());
		sprout::string<12> s = mk<char, 12>(m);
		{ std::ostringstream o; o << s; CHECK_EQ(o.str(), m); }
		std::string in = (g.flag() ? "  " : "") + a + (g.flag() ? " tail" : ""); g.note("in", in);
		std::istringstream i1(in); if (w) i1.width(w); i1 >> s;
		size_t lim = w && w < 12 ? w : 12; std::istringstream i2(in); i2.width(lim); std::string r; i2 >> r;
		CHECK_EQ(std::string(s.c_str(), s.size()), r); CHECK_EQ(i1.fail(), i2.fail());
		std::string x1, x2; i1.clear(); i2.clear(); std::getline(i1, x1); std::getline(i2, x2); CHECK_EQ(x1, x2);
	}
}
