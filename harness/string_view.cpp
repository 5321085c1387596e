// sprout::basic_string_view over unterminated, exactly-sized buffers against std::string.
#include "pbt.hpp"
#include <sstream>
#include <memory>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/functional/hash.hpp>
using pbt::G;
namespace {
	template<class C> std::basic_string<C> alpha() { std::basic_string<C> r; r += C('a'); r += C('b'); r += C('c'); r += C(sizeof(C) > 1 ? 0x3042 : 0xE3); return r; }
	template<class C> std::basic_string<C> gen(G& g, size_t maxn) { std::basic_string<C> al = alpha<C>(); if (g.chance(1, 2)) al.resize(2); return g.str(maxn, al); }
	template<class C> std::vector<long> codes(std::basic_string<C> const& s) { return std::vector<long>(s.begin(), s.end()); }
	template<class C> struct Ex { std::unique_ptr<C[]> p; size_t n; explicit Ex(std::basic_string<C> const& s) : p(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); } sprout::basic_string_view<C> v() const { return sprout::basic_string_view<C>(p.get(), n); } };
	template<class C> void same(sprout::basic_string_view<C> const& s, std::basic_string<C> const& m) {
		typedef std::basic_string<C> S;
		CHECK_EQ(s.size(), m.size()); CHECK_EQ(s.length(), m.size()); CHECK_EQ(s.empty(), m.empty()); CHECK(S(s.data(), s.size()) == m);
		CHECK(S(s.begin(), s.end()) == m); CHECK(S(s.cbegin(), s.cend()) == m); CHECK(S(s.rbegin(), s.rend()) == S(m.rbegin(), m.rend())); CHECK(S(s.crbegin(), s.crend()) == S(m.rbegin(), m.rend()));
		for (size_t i = 0; i < m.size(); ++i) { CHECK(s[i] == m[i]); CHECK(s.at(i) == m[i]); }
		CHECK_THROWS(std::out_of_range, s.at(m.size())); CHECK_THROWS(std::out_of_range, s.at(size_t(-1)));
		if (!m.empty()) { CHECK(s.front() == m.front()); CHECK(s.back() == m.back()); }
	}
#define SG(x) ((x) < 0 ? -1 : (x) > 0)
	template<class C> void queries(G& g) {
		typedef std::basic_string<C> S; typedef sprout::basic_string_view<C> V; size_t const N = 20;
		S m = gen<C>(g, N), a = g.chance(1, 4) ? S() : gen<C>(g, 6);
		if (g.chance(1, 3) && !m.empty()) { size_t i = g.draw(m.size()); a = m.substr(i, g.draw(m.size() - i + 1)); }
		size_t pos = g.chance(1, 6) ? S::npos : size_t(g.draw(m.size() + 3)), n = g.chance(1, 6) ? S::npos : size_t(g.draw(m.size() + 3)), p2 = g.draw(a.size() + 2), n2 = g.chance(1, 6) ? S::npos : size_t(g.draw(a.size() + 2)); C c = alpha<C>()[size_t(g.draw(4))];
		size_t cnt = a.empty() ? 0 : size_t(g.draw(a.size() + 1));
		g.note("m", codes(m)); g.note("a", codes(a)); g.note("pos", pos); g.note("n", n); g.note("p2", p2); g.note("n2", n2); g.note("c", long(c)); g.note("cnt", cnt);
		g.nontrivial(m.size() > 1 && !a.empty());
		Ex<C> em(m), ea(a); V const s = em.v(), b = ea.v(); C const* pa = ea.p.get();
		same(s, m);
#define Q(f) CHECK_EQ(s.f(b, pos), m.f(a, pos)); CHECK_EQ(s.f(b), m.f(a)); CHECK_EQ(s.f(a.c_str(), pos), m.f(a, pos)); CHECK_EQ(s.f(a.c_str()), m.f(a)); CHECK_EQ(s.f(pa, pos, cnt), m.f(a.c_str(), pos, cnt)); CHECK_EQ(s.f(c, pos), m.f(c, pos)); CHECK_EQ(s.f(c), m.f(c)); CHECK_EQ(s.f(b.begin(), pos, cnt), m.f(a.c_str(), pos, cnt));
		Q(find) Q(rfind) Q(find_first_of) Q(find_last_of) Q(find_first_not_of) Q(find_last_not_of)
		CHECK_EQ(SG(s.compare(b)), SG(m.compare(a))); CHECK_EQ(SG(s.compare(a.c_str())), SG(m.compare(a)));
#define TRY(e) int got = 2; try { got = SG(e); } catch (std::out_of_range const&) {}
		int want = 2; try { want = SG(m.compare(pos, n, a)); } catch (std::out_of_range const&) {}
		{ TRY(s.compare(pos, n, b)) CHECK_EQ(got, want); } { TRY(s.compare(pos, n, a.c_str())) CHECK_EQ(got, want); }
		want = 2; try { want = SG(m.compare(pos, n, a, p2, n2)); } catch (std::out_of_range const&) {}
		{ TRY(s.compare(pos, n, b, p2, n2)) CHECK_EQ(got, want); }
		want = 2; try { want = SG(m.compare(pos, n, a.c_str(), cnt)); } catch (std::out_of_range const&) {}
		{ TRY(s.compare(pos, n, pa, cnt)) CHECK_EQ(got, want); }
		CHECK_EQ(s == b, m == a); CHECK_EQ(s != b, m != a); CHECK_EQ(s < b, m < a); CHECK_EQ(s > b, m > a); CHECK_EQ(s <= b, m <= a); CHECK_EQ(s >= b, m >= a);
		CHECK_EQ(s == a.c_str(), m == a); CHECK_EQ(s != a.c_str(), m != a); CHECK_EQ(s < a.c_str(), m < a); CHECK_EQ(s > a.c_str(), m > a); CHECK_EQ(s <= a.c_str(), m <= a); CHECK_EQ(s >= a.c_str(), m >= a);
		CHECK_EQ(a.c_str() == s, a == m); CHECK_EQ(a.c_str() != s, a != m); CHECK_EQ(a.c_str() < s, a < m); CHECK_EQ(a.c_str() > s, a > m); CHECK_EQ(a.c_str() <= s, a <= m); CHECK_EQ(a.c_str() >= s, a >= m);
		{ bool t = false; try { V u = s.substr(pos, n); CHECK(pos <= m.size()); same(u, m.substr(pos, n)); } catch (std::out_of_range const&) { t = true; } CHECK_EQ(t, pos > m.size()); }
		if (pos <= m.size()) { same(s.substr(pos), m.substr(pos)); std::vector<C> x(N + 4, C('#')), y(N + 4, C('#')); CHECK_EQ(s.copy(x.data(), n, pos), m.copy(y.data(), n, pos)); CHECK(x == y); } else { C buf[1]; CHECK_THROWS(std::out_of_range, s.copy(buf, 1, pos)); }
		CHECK_EQ(s.starts_with(b), m.compare(0, a.size(), a) == 0); CHECK_EQ(s.ends_with(b), m.size() >= a.size() && m.compare(m.size() - a.size(), a.size(), a) == 0);
		CHECK_EQ(s.starts_with(c), !m.empty() && m.front() == c); CHECK_EQ(s.ends_with(c), !m.empty() && m.back() == c);
		{ V u(s); u.remove_prefix(pos); same(u, m.substr(std::min(pos, m.size()))); } { V u(s); u.remove_suffix(pos); same(u, m.substr(0, m.size() - std::min(pos, m.size()))); }
		same(s.remove_prefix(pos), m.substr(std::min(pos, m.size()))); same(s.remove_suffix(pos), m.substr(0, m.size() - std::min(pos, m.size())));
		{ V u(s), w(b); u.swap(w); same(u, a); same(w, m); using sprout::swap; swap(u, w); same(u, m); same(w, a); u.clear(); same(u, S()); u = w; same(u, a); }
		{ sprout::basic_string<C, N> u = s.template to_string<N>(); CHECK(S(u.data(), u.size()) == m); CHECK(u.c_str()[u.size()] == C()); sprout::basic_string<C, N> w(s); CHECK(u == w); V back(u); same(back, m); CHECK_EQ(sprout::to_hash(back), sprout::to_hash(s)); }
		{ auto u = s.to_string(); CHECK(S(u.data(), u.size()) == m); }
		CHECK_EQ(std::hash<V>()(s), sprout::to_hash(V(s)));
	}
	PROP_INST(queries_char, 6, queries<char>) PROP_INST(queries_u16, 3, queries<char16_t>) PROP_INST(queries_wchar, 3, queries<wchar_t>)
	PROP(stream, 1) { std::string m = gen<char>(g, 20); g.note("m", m); g.nontrivial(!m.empty()); Ex<char> e(m); std::ostringstream o; o << "<" << e.v() << ">"; CHECK_EQ(o.str(), "<" + m + ">"); }
}
