// B01: sprout::bitset against std::bitset, stateful
#include "pbt.hpp"
#include <bitset>
#include <sstream>
#include <memory>
#include <sprout/bitset.hpp>
#include <sprout/functional/hash.hpp>
using namespace pbt;

static std::string bits(G& g, size_t n) {	// run-structured
	std::string s; char c = '0';
	while (s.size() < n) { size_t k = 1 + g.draw(g.flag() ? 3 : 40); c = g.flag() ? '1' : '0'; while (k-- && s.size() < n) s += c; }
	return s;
}
template<size_t N> struct Both {
	sprout::bitset<N> s; std::bitset<N> m;
	static std::string text(sprout::bitset<N> const& b) { std::string r; for (size_t i = N; i-- > 0;) r += b.test(i) ? '1' : '0'; return r; }
	static void same(sprout::bitset<N> const& s, std::bitset<N> const& m, char const* what) {
		std::string t = text(s), e = N ? m.to_string() : "";
		if (t != e) fail(__FILE__, __LINE__, std::string(what) + ": got " + t + " expected " + e);
		if (s.count() != m.count() || s.any() != m.any() || s.none() != m.none() || s.all() != m.all()) fail(__FILE__, __LINE__, std::string(what) + ": count/any/none/all differ for " + e);
	}
	void same(char const* what) const { same(s, m, what); }
};
template<size_t N> std::bitset<N> smp(G& g, sprout::bitset<N>& s) {
	std::string b = bits(g, N);
	s = sprout::bitset<N>(b);
	return std::bitset<N>(b);
}
static size_t position(G& g, size_t n) {
	switch (g.draw(6)) { case 0: return n; case 1: return n + g.draw(70); case 2: return std::min<size_t>(n, 64 * g.draw(4) + g.draw(3)); default: return n ? g.draw(n) : 0; }
}
template<class F> bool throws_oor(F f) { try { f(); } catch (std::out_of_range const&) { return true; } return false; }

template<size_t N> void history_(G& g) {
	Both<N> b;
	b.m = smp<N>(g, b.s);
	b.same("init");
	size_t steps = 1 + g.size(20);
	std::string ops;
	for (size_t k = 0; k < steps; ++k) {
		int op = int(g.draw(26));
		ops += std::to_string(op) + " ";
		size_t p = position(g, N);
		switch (op) {
		case 0: { bool v = g.flag(); bool t1 = throws_oor([&] { b.s.set(p, v); }), t2 = throws_oor([&] { b.m.set(p, v); }); CHECK_EQ(t1, t2); break; }
		case 1: { bool t1 = throws_oor([&] { b.s.reset(p); }), t2 = throws_oor([&] { b.m.reset(p); }); CHECK_EQ(t1, t2); break; }
		case 2: { bool t1 = throws_oor([&] { b.s.flip(p); }), t2 = throws_oor([&] { b.m.flip(p); }); CHECK_EQ(t1, t2); break; }
		case 3: b.s.set(); b.m.set(); break;
		case 4: b.s.reset(); b.m.reset(); break;
		case 5: b.s.flip(); b.m.flip(); break;
		case 6: ops += "<<" + std::to_string(p); b.s <<= p; b.m <<= p; break;
		case 7: ops += ">>" + std::to_string(p); b.s >>= p; b.m >>= p; break;
		case 8: ops += "c<<" + std::to_string(p); { sprout::bitset<N> const& c = b.s; Both<N>::same(c << p, b.m << p, "<<"); b.s = c << p; b.m = b.m << p; } break;
		case 9: ops += "c>>" + std::to_string(p); { sprout::bitset<N> const& c = b.s; Both<N>::same(c >> p, b.m >> p, ">>"); b.s = c >> p; b.m = b.m >> p; } break;
		case 10: { sprout::bitset<N> o; std::bitset<N> om = smp<N>(g, o); b.s &= o; b.m &= om; break; }
		case 11: { sprout::bitset<N> o; std::bitset<N> om = smp<N>(g, o); b.s |= o; b.m |= om; break; }
		case 12: { sprout::bitset<N> o; std::bitset<N> om = smp<N>(g, o); b.s ^= o; b.m ^= om; break; }
		case 13: { sprout::bitset<N> o; std::bitset<N> om = smp<N>(g, o); Both<N>::same(b.s & o, b.m & om, "&"); Both<N>::same(b.s | o, b.m | om, "|"); Both<N>::same(b.s ^ o, b.m ^ om, "^"); CHECK_EQ(b.s == o, b.m == om); CHECK_EQ(b.s != o, b.m != om); break; }
		case 14: b.s = ~b.s; b.m = ~b.m; break;
		case 15: { sprout::bitset<N> const& c = b.s; Both<N>::same(c.set(), std::bitset<N>().set(), "set() const"); Both<N>::same(c.reset(), std::bitset<N>(), "reset() const"); Both<N>::same(c.flip(), ~b.m, "flip() const"); break; }
		case 16: if (p < N) { sprout::bitset<N> const& c = b.s; bool v = g.flag(); Both<N>::same(c.set(p, v), std::bitset<N>(b.m).set(p, v), "set(p) const"); Both<N>::same(c.reset(p), std::bitset<N>(b.m).reset(p), "reset(p) const"); Both<N>::same(c.flip(p), std::bitset<N>(b.m).flip(p), "flip(p) const"); }
			else { sprout::bitset<N> const& c = b.s; CHECK_THROWS(std::out_of_range, c.set(p)); CHECK_THROWS(std::out_of_range, c.reset(p)); CHECK_THROWS(std::out_of_range, c.flip(p)); CHECK_THROWS(std::out_of_range, c.test(p)); } break;
		case 17: if (p < N) { b.s[p] = b.s[N - 1 - p]; b.m[p] = bool(b.m[N - 1 - p]); b.same("ref="); CHECK_EQ(bool(~b.s[p]), !b.m[p]); b.s[p].flip(); b.m[p].flip(); bool v = g.flag(); b.s[N / 2] = v; b.m[N / 2] = v; sprout::bitset<N> const& c = b.s; CHECK_EQ(c[p], bool(b.m[p])); CHECK_EQ(bool(b.s[p]), bool(b.m[p])); } break;
		case 18: { bool o1 = false, o2 = false; unsigned long v1 = 0, v2 = 0; try { v1 = b.s.to_ulong(); } catch (std::overflow_error const&) { o1 = true; } try { v2 = b.m.to_ulong(); } catch (std::overflow_error const&) { o2 = true; } CHECK_EQ(o1, o2); CHECK_EQ(v1, v2); break; }
		case 19: { bool o1 = false, o2 = false; unsigned long long v1 = 0, v2 = 0; try { v1 = b.s.to_ullong(); } catch (std::overflow_error const&) { o1 = true; } try { v2 = b.m.to_ullong(); } catch (std::overflow_error const&) { o2 = true; } CHECK_EQ(o1, o2); CHECK_EQ(v1, v2); break; }
		case 20: { CHECK_EQ(b.s.to_string(), b.m.to_string()); CHECK_EQ(b.s.to_string('a', 'b'), b.m.to_string('a', 'b')); CHECK(b.s.template to_string<wchar_t>() == (b.m.template to_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >())); CHECK(b.s.template to_string<char16_t>(u'x') == (b.m.template to_string<char16_t, std::char_traits<char16_t>, std::allocator<char16_t> >(u'x', u'1'))); break; }
		case 21: { std::ostringstream o1, o2; o1 << b.s; o2 << b.m; CHECK_EQ(o1.str(), o2.str()); break; }
		case 22: { std::string in = bits(g, g.draw(N + 4)) + g.str<std::string>(2, "x2 01"); std::istringstream i1(in), i2(in); sprout::bitset<N> o(b.s); std::bitset<N> om(b.m); i1 >> o; i2 >> om; CHECK_EQ(i1.fail(), i2.fail()); CHECK_EQ(i1.eof(), i2.eof()); if (i1) { Both<N>::same(o, om, "operator>>"); std::string r1, r2; i1 >> r1; i2 >> r2; CHECK_EQ(r1, r2); } break; }
		case 23: { unsigned long long v = g.integer<unsigned long long>(); b.s = sprout::bitset<N>(v); b.m = std::bitset<N>(v); break; }
		case 24: { size_t f = b.s.find_first(), e = b.m._Find_first(); CHECK_EQ(f, e); if (p < N) CHECK_EQ(b.s.find_next(p), b.m._Find_next(p)); if (N) CHECK_EQ(b.s.find_next(N - 1), N); break; }
		case 25: { sprout::bitset<N> o(b.s); CHECK(o == b.s); CHECK_EQ(sprout::to_hash(o), sprout::to_hash(b.s)); if (N) { sprout::bitset<N> q(b.s); if (p < N) { q.flip(p); CHECK(q != b.s); q.flip(p); CHECK_EQ(sprout::to_hash(q), sprout::to_hash(b.s)); } } break; }
		}
		b.same(("op " + std::to_string(op)).c_str());
	}
	g.note("ops", ops); g.nontrivial(steps > 1 && (N == 1 || (b.m.any() && !b.m.all())));
}
template<size_t N> void construct_(G& g) {
	std::string s = bits(g, g.draw(N + 8));
	if (g.chance(1, 6)) s.insert(g.draw(s.size() + 1), 1, g.pick({'2', 'x', ' ', '\x7f'}));
	size_t pos = g.draw(s.size() + 3), n = g.flag() ? std::string::npos : g.draw(s.size() + 3);
	int form = int(g.draw(7));
	g.note("s", s); g.note("pos", pos); g.note("n", n); g.note("form", form); g.nontrivial(s.size() > 1);
	std::string ab = s; for (auto& c : ab) c = c == '0' ? 'a' : c == '1' ? 'b' : c;
	std::unique_ptr<char[]> exact(new char[s.size()]); std::copy(s.begin(), s.end(), exact.get());
	std::unique_ptr<char[]> term(new char[s.size() + 1]); std::copy(s.begin(), s.end(), term.get()); term[s.size()] = 0;
	size_t pn = std::min(n, s.size());
	int r1 = 0, r2 = 0; sprout::bitset<N> a; std::bitset<N> b;
	auto run = [&](int which) -> int {
		try {
			if (which == 1) switch (form) {
				case 0: a = sprout::bitset<N>(s); break; case 1: a = sprout::bitset<N>(s, pos); break; case 2: a = sprout::bitset<N>(s, pos, n); break;
				case 3: a = sprout::bitset<N>(ab, pos, n, 'a', 'b'); break; case 4: a = sprout::bitset<N>(exact.get(), pn); break; case 5: a = sprout::bitset<N>(term.get()); break; case 6: a = sprout::bitset<N>(exact.get(), pn, '0', '1'); break;
			} else switch (form) {
				case 0: b = std::bitset<N>(s); break; case 1: b = std::bitset<N>(s, pos); break; case 2: b = std::bitset<N>(s, pos, n); break;
				case 3: b = std::bitset<N>(ab, pos, n, 'a', 'b'); break; case 4: b = std::bitset<N>(exact.get(), pn); break; case 5: b = std::bitset<N>(term.get()); break; case 6: b = std::bitset<N>(exact.get(), pn, '0', '1'); break;
			}
			return 0;
		} catch (std::invalid_argument const&) { return 1; } catch (std::out_of_range const&) { return 2; }
	};
	r1 = run(1); r2 = run(2);
	CHECK_EQ(r1, r2);
	if (!r1) Both<N>::same(a, b, "constructed");
}
PROP_INST(history_1, 1, history_<1>)
PROP_INST(history_7, 1, history_<7>)
PROP_INST(history_63, 1, history_<63>)
PROP_INST(history_64, 2, history_<64>)
PROP_INST(history_65, 2, history_<65>)
PROP_INST(history_128, 2, history_<128>)
PROP_INST(history_130, 2, history_<130>)
PROP_INST(history_191, 2, history_<191>)
PROP_INST(history_256, 1, history_<256>)
PROP_INST(history_323, 1, history_<323>)
PROP_INST(construct_5, 1, construct_<5>)
PROP_INST(construct_64, 1, construct_<64>)
PROP_INST(construct_100, 1, construct_<100>)

PROP(empty_bitset, 0.2) {
	sprout::bitset<0> a, b(g.integer<unsigned long long>()); sprout::bitset<0> const& c = a;
	g.nontrivial();
	CHECK(a == b); CHECK(c.size() == 0 && c.count() == 0 && c.none() && !c.any() && c.all());
	CHECK(c.to_ulong() == 0 && c.to_ullong() == 0); CHECK(c.to_string().empty());
	a.set(); a.flip(); a.reset(); a &= b; a |= b; a ^= b; a <<= g.draw(3); a >>= g.draw(3); CHECK(a == b && ~a == b && (a & b) == a && (a | b) == a && (a ^ b) == a && (c << 1) == a && (c >> 1) == a);
	CHECK_THROWS(std::out_of_range, c.test(0));
}
