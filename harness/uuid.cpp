// UUIDs: text round trips, name-based UUIDs against RFC 4122 computed with reference digests, ordering, variant and version
#include "pbt.hpp"
#include "hashref.hpp"
#include <sprout/uuid.hpp>
#include <sprout/uuid/hash.hpp>
#include <sprout/uuid/tuple.hpp>
#include <sprout/uuid/literals.hpp>
#include <sprout/random.hpp>
#include <sprout/string.hpp>
#include <sstream>
#include <iomanip>
#include <list>
#include <algorithm>
namespace {
	using pbt::G; using ref::Bytes; namespace u = sprout::uuids;
	Bytes by(sprout::uuid const& x) { return Bytes(x.begin(), x.end()); }
	sprout::uuid mk(Bytes const& b) { sprout::uuid x = {{0}}; for (size_t i = 0; i < 16; ++i) x[i] = b[i]; return x; }
	Bytes rnd(G& g) { Bytes b(16); switch (g.draw(3)) { case 0: for (auto& x : b) x = uint8_t(g.draw(256)); break; case 1: for (auto& x : b) x = uint8_t(g.draw(2) * 255); break; default: b[size_t(g.draw(16))] = uint8_t(g.draw(256)); } g.nontrivial(b != Bytes(16)); g.note("uuid", ref::hex(b)); return b; }
	std::string fmt(Bytes const& b, bool dash = true) { std::string s, h = ref::hex(b); for (size_t i = 0; i < 32; ++i) { if (dash && (i == 8 || i == 12 || i == 16 || i == 20)) s += '-'; s += h[i]; } return s; }
	template<class C> std::basic_string<C> widen(std::string const& s) { return std::basic_string<C>(s.begin(), s.end()); }
	template<class C> void text(G& g) {
		Bytes b = rnd(g); sprout::uuid x = mk(b); std::basic_string<C> canon = widen<C>(fmt(b));
		auto t = u::to_string_of<C>(x); CHECK_EQ(t.size(), size_t(36)); CHECK((std::basic_string<C>(t.begin(), t.end()) == canon));
		std::string s = fmt(b, g.flag()); for (auto& c : s) if (g.flag()) c = char(std::toupper(c)); if (g.chance(1, 3)) s = "{" + s + "}"; g.note("text", s);
		auto w = widen<C>(s); CHECK_EQ(ref::hex(by(u::make_uuid(w.begin(), w.end()))), ref::hex(b)); CHECK_EQ(ref::hex(by(u::make_uuid(w.c_str()))), ref::hex(b)); CHECK_EQ(ref::hex(by(u::make_uuid(sprout::basic_string<C, 40>(w.c_str())))), ref::hex(b));
		std::list<C> l(w.begin(), w.end()); CHECK_EQ(ref::hex(by(u::string_generator()(l.begin(), l.end()))), ref::hex(b)); CHECK_EQ(ref::hex(by(sprout::literals::uuids::operator"" _uuid(w.data(), w.size()))), ref::hex(b)); CHECK(u::make_uuid(t) == x); std::size_t cut = g.draw(w.size()); CHECK_THROWS(std::runtime_error, sprout::literals::uuids::operator"" _uuid(w.data(), cut)); CHECK_THROWS(std::runtime_error, u::make_uuid(w.data(), w.data() + cut));
	}
	PROP_INST(text_char, 1, text<char>) PROP_INST(text_wchar, 1, text<wchar_t>) PROP_INST(text_char16, 1, text<char16_t>) PROP_INST(text_char32, 1, text<char32_t>)
	PROP(named_strings, 1) { Bytes b = rnd(g); sprout::uuid x = mk(b); std::string c = fmt(b); auto s = u::to_string(x); CHECK_EQ(std::string(s.begin(), s.end()), c); auto w = u::to_wstring(x); CHECK(std::wstring(w.begin(), w.end()) == widen<wchar_t>(c)); auto v = u::to_u16string(x); CHECK(std::u16string(v.begin(), v.end()) == widen<char16_t>(c)); auto z = u::to_u32string(x); CHECK(std::u32string(z.begin(), z.end()) == widen<char32_t>(c)); }
	// malformed text: truncated, a wrong character, a misplaced or missing dash, an unclosed brace
	PROP(malformed, 2) {
		Bytes b = rnd(g); bool dash = g.flag(), brace = g.flag(); std::string s = fmt(b, dash); if (brace) s = "{" + s + "}"; std::string ok = s;
		switch (g.draw(4)) {
		case 0: s.resize(size_t(g.draw(s.size()))); break;
		case 1: { size_t i; do i = size_t(g.draw(s.size())); while (!std::isxdigit((unsigned char)s[i])); s[i] = g.pick({'g', 'G', ' ', '/', ':', '@', '`', 'x', '}', '.'}); break; }
		case 2: { if (!dash) return; size_t k = size_t(g.draw(4)), i = s.find('-'); while (k--) i = s.find('-', i + 1); if (g.flag()) s.erase(i, 1); else s[i] = '0'; break; }
		default: if (!brace) return; s.back() = g.pick({'{', '0', ')', ']', 'a'}); if (g.flag()) s.pop_back();
		}
		g.note("text", s); g.nontrivial(s.size() > 8); CHECK_THROWS(std::runtime_error, u::make_uuid(s.begin(), s.end())); CHECK_THROWS(std::runtime_error, u::make_uuid(s.c_str())); CHECK(u::make_uuid(ok.c_str()) == mk(b));
	}
	Bytes name(Bytes const& ns, Bytes const& n, bool md) { Bytes m = ns; m.insert(m.end(), n.begin(), n.end()); Bytes h = md ? ref::md5(m) : ref::sha1(m); h.resize(16); (void)md; return h; }
	template<class C> void names(G& g) {
		Bytes ns = rnd(g); size_t n = g.size(60 / sizeof(C)); std::basic_string<C> s; for (size_t i = 0; i < n; ++i) s.push_back(C(g.range(1, sizeof(C) == 1 ? 255 : 0xd000))); Bytes m; for (auto c : s) for (size_t i = sizeof(C); i-- > 0;) m.push_back(uint8_t(uint32_t(c) >> (8 * i)));
		g.note("name", ref::hex(m)); g.nontrivial(n > 0); sprout::uuid x = mk(ns); sprout::basic_string<C, 64> t(s.c_str());
		for (int md = 0; md < 2; ++md) {
			Bytes h = name(ns, m, md); sprout::uuid r = md ? u::make_uuid3(x, s.c_str()) : u::make_uuid5(x, s.c_str()); int ver = md ? 3 : 5; sprout::uuid q = md ? u::make_uuid3(x)(t) : u::make_uuid5(x)(t);
			CHECK_EQ(int(r.version()), ver); CHECK_EQ(int(r[6] >> 4), ver); CHECK(r.variant() == sprout::uuid::variant_rfc_4122); CHECK(r == q);
			if (md) CHECK(u::make_uuid3(x, t) == r); else CHECK(u::make_uuid5(x, t) == r);
			for (size_t i = 0; i < 16; ++i) if (i == 8) CHECK_EQ(int(r[i] & 0x3f), int(h[i] & 0x3f)); else if (i != 6) CHECK_EQ(int(r[i]), int(h[i])); else CHECK_MSG((r[i] & 15) == (h[i] & 15), "low nibble of octet 6 (version " << ver << ") got " << int(r[i] & 15) << " expected " << int(h[i] & 15));
			Bytes nil(16), hn = name(nil, m, md); sprout::uuid rn = md ? u::make_uuid3(s.c_str()) : u::make_uuid5(s.c_str()); CHECK_EQ(int(rn[0]), int(hn[0])); CHECK_EQ(int(rn[15]), int(hn[15])); CHECK(rn == (md ? u::make_uuid3(u::nil_uuid(), t) : u::make_uuid5(u::nil_uuid(), t)));
		}
		static char const* const nsu[] = {"6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6ba7b811-9dad-11d1-80b4-00c04fd430c8", "6ba7b812-9dad-11d1-80b4-00c04fd430c8", "6ba7b814-9dad-11d1-80b4-00c04fd430c8"}; static char const* const nn[] = {"dns", "url", "oid", "x500"};
		unsigned k = unsigned(g.draw(4)); sprout::uuid w = u::make_uuid(nsu[k]); sprout::uuid fs[] = {u::namespace_dns_uuid(), u::namespace_url_uuid(), u::namespace_oid_uuid(), u::namespace_x500_uuid()}; CHECK(fs[k] == w);
		auto g3 = k == 0 ? u::make_uuid3_dns() : k == 1 ? u::make_uuid3_url() : k == 2 ? u::make_uuid3_oid() : u::make_uuid3_x500(); auto g5 = k == 0 ? u::make_uuid5_dns() : k == 1 ? u::make_uuid5_url() : k == 2 ? u::make_uuid5_oid() : u::make_uuid5_x500();
		CHECK(g3(t) == u::make_uuid3(w, t)); CHECK(g5(t) == u::make_uuid5(w, t));
		std::string tok = g.flag() ? std::string(nn[k]) : std::string(nsu[k]); for (auto& c : tok) if (g.flag()) c = char(std::toupper(c)); auto wt = widen<C>(tok);
		CHECK(sprout::literals::uuids::operator"" _uuid3(wt.data(), wt.size())(t) == g3(t)); CHECK(sprout::literals::uuids::operator"" _uuid5(wt.data(), wt.size())(t) == g5(t));
	}
	PROP_INST(names_char, 0.015, names<char>) PROP_INST(names_wchar, 0.015, names<wchar_t>) PROP_INST(names_char16, 0.015, names<char16_t>) PROP_INST(names_char32, 0.015, names<char32_t>)
	PROP(io, 2) {
		Bytes b = rnd(g), c = rnd(g); sprout::uuid x = mk(b), y = mk(c); std::ostringstream o; int w = int(g.range(0, 45)); bool left = g.flag(); if (w) o << std::setw(w) << std::setfill('*') << (left ? std::left : std::right); o << std::uppercase << x; o.flags(std::ios::dec); std::string s = fmt(b); g.note("width", w);
		std::string pad(size_t(std::max(0, w - 36)), '*'); std::string up = s; std::transform(up.begin(), up.end(), up.begin(), [](char q) { return char(std::toupper(q)); }); std::string got = o.str(); CHECK(got == (left ? up + pad : pad + up) || !w);
		std::wostringstream wo; wo << x << L' ' << 255; CHECK(wo.str() == widen<wchar_t>(s) + L" 255");
		std::string in = fmt(b); for (auto& q : in) if (g.flag()) q = char(std::toupper(q)); std::istringstream i(in + " " + fmt(c)); sprout::uuid p = y, q = x; i >> p >> q; CHECK(!!i); CHECK(p == x); CHECK(q == y);
		std::string bad = in; if (g.flag()) bad.resize(size_t(g.draw(36))); else { size_t k = size_t(g.draw(36)); bad[k] = g.pick({'g', '_', '{'}); } g.note("bad", bad); std::istringstream j(bad); p = y; j >> p; CHECK(j.fail()); CHECK(p == y);
	}
	PROP(order, 2) {
		Bytes a = rnd(g), b = g.flag() ? rnd(g) : a; if (g.flag()) b[size_t(g.draw(16))] = uint8_t(g.draw(256)); sprout::uuid x = mk(a), y = mk(b); g.note("other", ref::hex(b)); g.nontrivial(a != b);
		CHECK_EQ(x == y, a == b); CHECK_EQ(x != y, a != b); CHECK_EQ(x < y, a < b); CHECK_EQ(x > y, a > b); CHECK_EQ(x <= y, a <= b); CHECK_EQ(x >= y, a >= b); CHECK_EQ(x.is_nil(), a == Bytes(16)); CHECK(u::nil_uuid().is_nil());
		if (a == b) CHECK_EQ(std::hash<sprout::uuid>()(x), sprout::to_hash(y)); if (std::count_if(a.begin(), a.end(), [&](uint8_t const& v) { return v != b[size_t(&v - a.data())]; }) == 1) CHECK(sprout::to_hash(x) != sprout::to_hash(y));
		int v8 = a[8]; CHECK(x.variant() == (v8 < 0x80 ? sprout::uuid::variant_ncs : v8 < 0xc0 ? sprout::uuid::variant_rfc_4122 : v8 < 0xe0 ? sprout::uuid::variant_microsoft : sprout::uuid::variant_future)); int v6 = a[6] >> 4; CHECK_EQ(int(x.version()), v6 >= 1 && v6 <= 5 ? v6 : -1);
		CHECK_EQ(x.size(), size_t(16)); CHECK(!x.empty()); Bytes r(x.rbegin(), x.rend()); std::reverse(r.begin(), r.end()); CHECK(r == a); Bytes cr(x.crbegin(), x.crend()); CHECK(cr == Bytes(a.rbegin(), a.rend())); CHECK(Bytes(x.cbegin(), x.cend()) == a); size_t i = size_t(g.draw(20)); if (i < 16) { CHECK_EQ(int(x.at(i)), int(a[i])); CHECK_EQ(int(x.data()[i]), int(a[i])); } else CHECK_THROWS(std::out_of_range, x.at(i)); CHECK_EQ(int(x.front()), int(a[0])); CHECK_EQ(int(x.back()), int(a[15]));
		CHECK_EQ(int(sprout::tuples::get<0>(x)), int(a[0])); CHECK_EQ(int(sprout::tuples::get<9>(x)), int(a[9])); CHECK_EQ(int(sprout::tuples::get<15>(x)), int(a[15])); CHECK_EQ(size_t(std::tuple_size<sprout::uuid>::value), size_t(16));
		swap(x, y); CHECK(by(x) == b && by(y) == a); x.fill(7); CHECK(by(x) == Bytes(16, 7));
	}
	template<class E> void random(G& g) {
		uint32_t seed = uint32_t(g.integer<uint32_t>()); g.note("seed", seed); g.nontrivial(seed > 1); E e(seed); u::basic_random_generator<E> gen; sprout::uuid x = gen(e); CHECK(x.version() == sprout::uuid::version_random_number_based); CHECK(x.variant() == sprout::uuid::variant_rfc_4122); CHECK(gen(e) == x); CHECK(gen(seed) == x);
E e2 = e; sprout::random::uniform_int_distribution<uint32_t> dist(0, 0xffffffffu); Bytes w; for (int i = 0; i < 4; ++i) { uint32_t v = dist(e2); for (int j = 3; j >= 0; --j) w.push_back(uint8_t(v >> (8 * j))); }
		for (size_t i = 0; i < 16; ++i) if (i == 6) { CHECK_EQ(int(x[i] & 15), int(w[i] & 15)); } else if (i == 8) CHECK_EQ(int(x[i] & 0x3f), int(w[i] & 0x3f)); else CHECK_EQ(int(x[i]), int(w[i]));
		sprout::uuid d = u::make_uuid4(seed); CHECK(d == u::random_generator()(seed)); CHECK(d.version() == sprout::uuid::version_random_number_based); CHECK(d.variant() == sprout::uuid::variant_rfc_4122);
	}
	PROP_INST(random_minstd, 1, random<sprout::random::minstd_rand>) PROP_INST(random_taus, 1, random<sprout::random::taus88>)
}
