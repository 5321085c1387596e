// W01: weed grammars recognise and yield what the written grammar says.
#include "pbt.hpp"
#include <sprout/weed.hpp>
#include <sprout/weed/parser/directive/replace.hpp>
#include <sprout/variant.hpp>
#include <sprout/tuple.hpp>
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#include <functional>
namespace w = sprout::weed;
#ifndef PART
#define PART 0
#endif

// ---------------------------------------------------------------- attribute -> text
static std::string show(w::unused const&) { return ""; }
static std::string show(char c) { return std::string(1, c); }
template<typename T> static typename std::enable_if<std::is_integral<T>::value && sizeof(T) >= 1 && !std::is_same<T, char>::value, std::string>::type
show(T v) { return "<" + std::to_string(v) + ">"; }
template<std::size_t N> static std::string show(sprout::basic_string<char, N> const& s) { return std::string(s.begin(), s.end()); }
template<typename T, std::size_t N> static std::string show(sprout::array<T, N> const& a);
template<typename... Ts> static std::string show(sprout::tuples::tuple<Ts...> const& t);
template<typename T, typename U> static std::string show(sprout::variant<T, U> const& v);
template<typename T, std::size_t N> static std::string show(sprout::array<T, N> const& a) {
	std::string r; for (std::size_t i = 0; i < N; ++i) r += show(a[i]); return r;
}
template<std::size_t I, typename Tp> struct show_tuple {
	static std::string go(Tp const& t) { return show_tuple<I - 1, Tp>::go(t) + show(sprout::tuples::get<I - 1>(t)) + ","; }
};
template<typename Tp> struct show_tuple<0, Tp> { static std::string go(Tp const&) { return ""; } };
template<typename... Ts> static std::string show(sprout::tuples::tuple<Ts...> const& t) { return show_tuple<sizeof...(Ts), sprout::tuples::tuple<Ts...> >::go(t); }
template<typename T, typename U> static std::string show(sprout::variant<T, U> const& v) {
	return v.which() == 0 ? "0:" + show(sprout::get<0>(v)) : "1:" + show(sprout::get<1>(v));
}

// ---------------------------------------------------------------- reference recogniser
struct R { bool ok; std::size_t pos; std::string attr; bool vague; bool open; };
typedef std::function<R(std::string const&, std::size_t)> P;
static R fail(std::size_t p) { R r = {false, p, "", false, false}; return r; }
static R good(std::size_t p, std::string const& a = "") { R r = {true, p, a, false, false}; return r; }
static P chr(bool (*f)(char), bool keep = true) {
	return [=](std::string const& s, std::size_t p) { return p < s.size() && f(s[p]) ? good(p + 1, keep ? std::string(1, s[p]) : "") : fail(p); };
}
static P set(std::string const& cs, bool keep = true) {
	return [=](std::string const& s, std::size_t p) { return p < s.size() && cs.find(s[p]) != std::string::npos ? good(p + 1, keep ? std::string(1, s[p]) : "") : fail(p); };
}
static P str(std::string const& t, bool keep) {
	return [=](std::string const& s, std::size_t p) { return s.compare(p, t.size(), t) == 0 ? good(p + t.size(), keep ? t : "") : fail(p); };
}
static P any() { return [](std::string const& s, std::size_t p) { return p < s.size() ? good(p + 1, std::string(1, s[p])) : fail(p); }; }
static P operator>>(P a, P b) {
	return [=](std::string const& s, std::size_t p) {
		R x = a(s, p); if (!x.ok) return fail(p);
		R y = b(s, x.pos); if (!y.ok) return fail(p);
		y.attr = x.attr + y.attr; y.vague = x.vague || y.vague; y.open = x.open || y.open; return y;
	};
}
static P operator|(P a, P b) { return [=](std::string const& s, std::size_t p) { R x = a(s, p); return x.ok ? x : b(s, p); }; }
static P tagged(P a, std::string const& pre, std::string const& post) {
	return [=](std::string const& s, std::size_t p) { R x = a(s, p); if (x.ok) x.attr = pre + x.attr + post; return x; };
}
static P omit(P a) { return [=](std::string const& s, std::size_t p) { R x = a(s, p); x.attr = ""; x.vague = false; return x; }; }
static P repl(P a, std::string const& v) { return [=](std::string const& s, std::size_t p) { R x = a(s, p); if (x.ok) { x.attr = v; x.vague = false; } return x; }; }
static P opt(P a) { return [=](std::string const& s, std::size_t p) { R x = a(s, p); return x.ok ? x : good(p); }; }
static P no(P a) { return [=](std::string const& s, std::size_t p) { return a(s, p).ok ? fail(p) : good(p); }; }
static P see(P a) { return [=](std::string const& s, std::size_t p) { return a(s, p).ok ? good(p) : fail(p); }; }
static P minus(P a, P b) { return [=](std::string const& s, std::size_t p) { R x = a(s, p); return x.ok && !b(s, p).ok ? x : fail(p); }; }
enum cat { discard, circular, stopover };
static std::string joined(std::vector<std::string> const& v, std::size_t limit, std::string const& pad) {
	std::string r; for (std::size_t i = 0; i < v.size(); ++i) r += v[i];
	if (limit != std::size_t(-1)) for (std::size_t i = v.size(); i < limit; ++i) r += pad;
	return r;
}
// repetition (sep: list); limit bounds the attributes kept, category says what happens at the limit
static P many(P a, bool listed, P sep, std::size_t least, std::size_t limit = -1, cat c = discard, std::string const& pad = "", std::size_t most = -1) {
	return [=](std::string const& s, std::size_t p) {
		std::vector<std::string> got; std::size_t n = 0, at = p; bool vague = false, open = false;
		while (n < most) {
			std::size_t q = at;
			if (listed && n) { R y = sep(s, at); if (!y.ok) break; q = y.pos; }
			R x = a(s, q);
			if (!x.ok) { if (q != at) open = true; break; }   // a trailing separator: consumed or not is not claimed
			if (x.pos == at) break;
			++n; at = x.pos; vague = vague || x.vague; open = open || x.open;
			if (limit == std::size_t(-1) || got.size() < limit) got.push_back(x.attr);
			else if (c == circular) { got.erase(got.begin()); got.push_back(x.attr); }
			if (c == stopover && n == limit) break;
		}
		if (n < least) return fail(p);
		R r = good(at, joined(got, limit, pad)); r.vague = vague; r.open = open; return r;
	};
}
static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static bool is_big(std::string const& hi, std::string const& v) { return v.size() > hi.size() || (v.size() == hi.size() && v > hi); }
// number: sign (if signed), [lo,hi] digits of the base; a value out of range leaves the attribute unspecified
template<typename T> static P num(int base, std::size_t lo, std::size_t hi) {
	return [=](std::string const& s, std::size_t p) {
		std::size_t q = p; bool neg = false;
		if (std::is_signed<T>::value && q < s.size() && (s[q] == '+' || s[q] == '-')) neg = s[q++] == '-';
		unsigned __int128 v = 0; std::size_t n = 0; bool big = false;
		while (q < s.size() && n < hi && digit(s[q]) < base) {
			v = v * base + digit(s[q]); ++q; ++n;
			if (v > (unsigned __int128)std::numeric_limits<T>::max()) { big = true; v %= ((unsigned __int128)1 << 70); }
		}
		if (n < lo || n < 1) return fail(p);
		R r = good(q, "<" + (neg && v ? std::string("-") : std::string()) + std::to_string((unsigned long long)v) + ">");
		r.vague = big; return r;
	};
}
static bool c_alnum(char c) { return digit(c) < 36; }
static bool c_alpha(char c) { return digit(c) >= 10 && digit(c) < 36; }
static bool c_blank(char c) { return c == ' ' || c == '\t'; }
static bool c_cntrl(char c) { return (unsigned char)c < 32 || c == 127; }
static bool c_digit(char c) { return c >= '0' && c <= '9'; }
static bool c_graph(char c) { return c > 32 && c < 127; }
static bool c_print(char c) { return c >= 32 && c < 127; }
static bool c_punct(char c) { return c_graph(c) && !c_alnum(c); }
static bool c_space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool c_xdigit(char c) { return digit(c) < 16; }
static bool c_lower(char c) { return c >= 'a' && c <= 'z'; }
static bool c_upper(char c) { return c >= 'A' && c <= 'Z'; }

// ---------------------------------------------------------------- inputs and comparison
static std::string input(pbt::G& g, std::vector<std::string> const& toks) {
	std::string s;
	std::size_t n = g.size(9);
	for (std::size_t i = 0; i < n; ++i) s += toks[g.draw(toks.size())];
	if (!s.empty() && g.chance(1, 3)) {
		std::size_t k = g.draw(s.size());
		switch (g.draw(3)) {
		case 0: s.erase(k, 1); break;
		case 1: s.insert(k, 1, s[g.draw(s.size())]); break;
		default: s[k] = " ,:;-+azAZ09_x\n"[g.draw(15)]; break;
		}
	}
	return s;
}
template<typename Result> static void compare(Result const& res, char const* base, R const& r, std::string const& what) {
	CHECK_MSG(res.success() == r.ok, what + ": the text is recognised exactly when the grammar matches it");
	if (!r.ok) return;
	if (!r.open) CHECK_MSG((std::size_t)(res.current() - base) == r.pos, what + ": parsing stops where the grammar's match ends");
	if (!r.vague) CHECK_MSG(show(res.attr()) == r.attr, what + ": attribute " + show(res.attr()) + " instead of " + r.attr);
}
static bool informative = false;
template<typename Parser> static void run(pbt::G& g, std::string const& what, Parser const& parser, P const& ref, std::vector<std::string> const& toks) {
	for (int k = 0; k < 6; ++k) {
		std::string s = input(g, toks);
		std::vector<char> buf(s.begin(), s.end());   // exact bounds, no terminator
		char const* b = buf.data();
		g.note("grammar", what); g.note("text", s);
		R r = ref(s, 0);
		if (r.ok && r.pos > 1) informative = true;
		compare(w::parse(b, b + buf.size(), parser), b, r, what);
		typedef sprout::basic_string<char, 160> str_t;
		if (s.size() <= 160) {
			str_t t = sprout::string_from_c_str<160>(s.c_str(), s.size());
			auto res = w::parse(t.begin(), t.end(), parser);
			CHECK_MSG(res.success() == r.ok, what + ": same answer through another iterator");
			if (r.ok && !r.open) CHECK_EQ((std::size_t)(res.current() - t.begin()), r.pos);
		}
	}
	g.nontrivial(informative); informative = false;
}
typedef std::vector<std::string> V;
static P none() { return P(); }
struct plus1 { template<typename T> struct result; SPROUT_CONSTEXPR plus1() {} typedef long result_type; SPROUT_CONSTEXPR long operator()(std::intmax_t v) const { return v + 1; } };

#if PART == 0 || PART == 1
PROP(characters, 3) {
	V t; for (int c = 1; c < 128; ++c) t.push_back(std::string(1, (char)c));
	switch (g.draw(14)) {
#define CC(I, N) case I: run(g, #N, w::N, chr(c_##N), t); run(g, #N "_", w::N##_, chr(c_##N, false), t); run(g, "*" #N, *w::lim<8>(w::N), many(chr(c_##N), false, none(), 0, 8), t); break;
	CC(0, alnum) CC(1, alpha) CC(2, blank) CC(3, cntrl) CC(4, digit) CC(5, graph) CC(6, print) CC(7, punct) CC(8, space) CC(9, xdigit) CC(10, lower) CC(11, upper)
	case 12: run(g, "char_", w::char_, any(), t); break;
	default: run(g, "char_(f,l)", w::char_('c', 'x'), set("cdefghijklmnopqrstuvwx"), t); break;
	}
}
PROP(character_sets, 2) {
	V t = {"a", "b", "c", "d", "e", "m", "z", "A", "Z", "_", "-", "5", "0", "9", "."};
	switch (g.draw(6)) {
	case 0: run(g, "char_('b')", w::char_('b'), set("b"), t); break;
	case 1: run(g, "char_(\"abc\")", +w::lim<16>(w::char_("abc")), many(set("abc"), false, none(), 1, 16), t); break;
	case 2: run(g, "char_(\"c-e\")", +w::lim<16>(w::char_("c-e")), many(set("cde"), false, none(), 1, 16), t); break;
	case 3: run(g, "char_(\"a-cA-C_0-5\")", +w::lim<16>(w::char_("a-cA-C_0-5")), many(set("abcABC_012345"), false, none(), 1, 16), t); break;
	case 4: run(g, "char_(\"z.9\")", +w::lim<16>(w::char_("z.9")), many(set("z.9"), false, none(), 1, 16), t); break;
	default: run(g, "char_(string)", +w::lim<16>(w::char_(sprout::to_string("m0-9"))), many(set("m0123456789"), false, none(), 1, 16), t); break;
	}
}
PROP(literals, 2) {
	V t = {"let", "le", "t", "get", " ", "letlet", "\r\n", "\n", "\r", "x"};
	switch (g.draw(9)) {
	case 0: run(g, "lit(\"let\")", w::lit("let"), str("let", false), t); break;
	case 1: run(g, "string(\"let\")", w::string("let"), str("let", true), t); break;
	case 2: run(g, "string >> char_", w::string("let") >> w::char_, str("let", true) >> any(), t); break;
	case 3: run(g, "lit('x') >> eol", w::lit('x') >> w::eol, set("x", false) >> (str("\r\n", false) | set("\r\n", false)), t); break;
	case 4: run(g, "eps >> \"let\"", w::eps >> "let", str("let", false), t); break;
	case 5: run(g, "*lit >> eoi", *w::lit("let") >> w::eoi, many(str("let", false), false, none(), 0) >> no(any()), t); break;
	case 6: run(g, "*char_ - eol", *w::lim<40>(w::char_ - w::eol) >> w::eol, many(minus(any(), set("\r\n")), false, none(), 0, 40) >> (str("\r\n", false) | set("\r\n", false)), t); break;
	case 7: run(g, "lit(string)", w::lit(sprout::to_string("get")) >> w::char_, str("get", false) >> any(), t); break;
	default: run(g, "char lit both sides", 'x' >> w::char_ >> "t" , set("x", false) >> any() >> str("t", false), t); break;
	}
}
PROP(numbers, 5) {
	V t = {"0", "1", "9", "12", "127", "128", "255", "256", "-", "+", "65535", "2147483647", "ff", "7", "8", "a", "F", "00", "g", " ", "9223372036854775807"};
	switch (g.draw(24)) {
	case 0: run(g, "int_", w::int_, num<std::intmax_t>(10, 1, -1), t); break;
	case 1: run(g, "uint_", w::uint_, num<std::uintmax_t>(10, 1, -1), t); break;
	case 2: run(g, "int8", w::int8, num<std::int8_t>(10, 1, sprout::integer_digits<std::int8_t>::value), t); break;
	case 3: run(g, "uint8", w::uint8, num<std::uint8_t>(10, 1, 3), t); break;
	case 4: run(g, "int16", w::int16, num<std::int16_t>(10, 1, 5), t); break;
	case 5: run(g, "uint16", w::uint16, num<std::uint16_t>(10, 1, 5), t); break;
	case 6: run(g, "int32", w::int32, num<std::int32_t>(10, 1, 10), t); break;
	case 7: run(g, "uint32", w::uint32, num<std::uint32_t>(10, 1, 10), t); break;
	case 8: run(g, "hex", w::hex, num<std::uintmax_t>(16, 1, -1), t); break;
	case 9: run(g, "oct", w::oct, num<std::uintmax_t>(8, 1, -1), t); break;
	case 10: run(g, "bin", w::bin, num<std::uintmax_t>(2, 1, -1), t); break;
	case 11: run(g, "hex8", w::hex8, num<std::uint8_t>(16, 1, 2), t); break;
	case 12: run(g, "hex16", w::hex16, num<std::uint16_t>(16, 1, 4), t); break;
	case 13: run(g, "hex8f", w::hex8f, num<std::uint8_t>(16, 2, 2), t); break;
	case 14: run(g, "hex16f", w::hex16f, num<std::uint16_t>(16, 4, 4), t); break;
	case 15: run(g, "oct8", w::oct8, num<std::uint8_t>(8, 1, 3), t); break;
	case 16: run(g, "oct8f", w::oct8f, num<std::uint8_t>(8, 3, 3), t); break;
	case 17: run(g, "bin8", w::bin8, num<std::uint8_t>(2, 1, 8), t); break;
	case 18: run(g, "bin8f", w::bin8f, num<std::uint8_t>(2, 8, 8), t); break;
	case 19: run(g, "uint 2..4 digits", w::uint_p<unsigned, 10, 2, 4>(), num<unsigned>(10, 2, 4), t); break;
	case 20: run(g, "int 3..6 digits base 8", w::int_p<int, 8, 3, 6>(), num<int>(8, 3, 6), t); break;
	case 21: run(g, "hex32f", w::hex32f, num<std::uint32_t>(16, 8, 8), t); break;
	case 22: run(g, "uint8 3..20 digits", w::uint_p<std::uint8_t, 10, 3, 20>(), num<std::uint8_t>(10, 3, 20), t); break;
	default: run(g, "hex 1..9 digits", w::uint_p<std::uint64_t, 16, 1, 9>(), num<std::uint64_t>(16, 1, 9), t); break;
	}
}
#endif
#if PART == 0 || PART == 2
PROP(sequences_and_choices, 4) {
	V t = {"a", "b", "c", "1", "23", "-4", ",", ":", "ab", "x"};
	P I = num<std::intmax_t>(10, 1, -1), A = chr(c_alpha);
	switch (g.draw(16)) {
	case 0: run(g, "alpha alpha", w::alpha >> w::alpha, A >> A, t); break;
	case 1: run(g, "alpha alpha alpha", w::alpha >> w::alpha >> w::alpha, A >> A >> A, t); break;
	case 2: run(g, "alpha (alpha digit)", w::alpha >> (w::alpha >> w::digit), A >> (A >> chr(c_digit)), t); break;
	case 3: run(g, "(alpha alpha) (digit digit)", (w::alpha >> w::alpha) >> (w::digit >> w::digit), A >> A >> chr(c_digit) >> chr(c_digit), t); break;
	case 4: run(g, "int ',' int", w::int_ >> ',' >> w::int_, I >> set(",", false) >> I, t); break;
	case 5: run(g, "int ',' alpha", w::int_ >> ',' >> w::alpha, tagged(I, "", ",") >> set(",", false) >> tagged(A, "", ","), t); break;
	case 6: run(g, "alpha int alpha", w::alpha >> w::int_ >> w::alpha, tagged(A, "", ",") >> tagged(I, "", ",") >> tagged(A, "", ","), t); break;
	case 7: run(g, "alpha | digit", w::alpha | w::digit, A | chr(c_digit), t); break;
	case 8: run(g, "int | alpha", w::int_ | w::alpha, tagged(I, "0:", "") | tagged(A, "1:", ""), t); break;
	case 9: run(g, "alpha | int", w::alpha | w::int_, tagged(A, "0:", "") | tagged(I, "1:", ""), t); break;
	case 10: run(g, "(alpha alpha) | (alpha digit digit)", (w::alpha >> w::alpha) | (w::alpha >> w::digit >> w::digit), (A >> A) | (A >> chr(c_digit) >> chr(c_digit)), t); break;
	case 11: run(g, "(alpha ',') | (alpha ':')", (w::alpha >> ',') | (w::alpha >> ':'), (A >> set(",", false)) | (A >> set(":", false)), t); break;
	case 12: run(g, "alpha | (digit digit)", w::alpha | (w::digit >> w::digit), A | (chr(c_digit) >> chr(c_digit)), t); break;
	case 13: run(g, "(digit digit) | alpha", (w::digit >> w::digit) | w::alpha, (chr(c_digit) >> chr(c_digit)) | A, t); break;
	case 14: run(g, "',' | ':' then int", (w::lit(',') | ':') >> w::int_, set(",:", false) >> I, t); break;
	default: run(g, "alpha | ','", w::alpha | ',', A | set(",", false), t); break;
	}
}
PROP(predicates, 3) {
	V t = {"a", "b", "ab", "abc", "1", "2", "12", "-", "+", ":", "if", "iff"};
	P I = num<std::intmax_t>(10, 1, -1), A = chr(c_alpha);
	switch (g.draw(9)) {
	case 0: run(g, "!digit >> char", !w::digit >> w::char_, no(chr(c_digit)) >> any(), t); break;
	case 1: run(g, "&lit(\"ab\") >> char char", &w::lit("ab") >> w::char_ >> w::char_, see(str("ab", false)) >> any() >> any(), t); break;
	case 2: run(g, "char - digit", +w::lim<30>(w::char_ - w::digit), many(minus(any(), chr(c_digit)), false, none(), 1, 30), t); break;
	case 3: run(g, "-lit('-') >> int", -w::lit('-') >> w::int_, opt(set("-", false)) >> I, t); break;
	case 4: run(g, "-omit[+alpha] >> uint", -w::omit[w::alpha >> w::alpha] >> w::uint_, opt(omit(A >> A)) >> num<std::uintmax_t>(10, 1, -1), t); break;
	case 5: run(g, "\"if\" >> !alpha", w::string("if") >> !w::alpha_, str("if", true) >> no(A), t); break;
	case 6: run(g, "alpha >> !(alpha >> alpha)", w::alpha >> !(w::alpha >> w::alpha), A >> no(A >> A), t); break;
	case 7: run(g, "char - \"ab\"", *w::lim<30>(w::char_ - "ab") >> w::lit("ab"), many(minus(any(), str("ab", false)), false, none(), 0, 30) >> str("ab", false), t); break;
	default: run(g, "&&", &(w::alpha >> &w::digit) >> w::char_, see(A >> see(chr(c_digit))) >> any(), t); break;
	}
}
PROP(directives, 3) {
	V t = {"a", "b", "ab", "1", "23", "-4", ":", "x", "ffff", "0a"};
	P I = num<std::intmax_t>(10, 1, -1), A = chr(c_alpha);
	P name = many(A, false, none(), 0, 4);
	switch (g.draw(12)) {
	case 0: run(g, "as_tuple", w::as_tuple[*w::lim<4>(w::alpha)] >> ':' >> w::as_tuple[*w::lim<4>(w::alpha)], tagged(name, "", ",") >> set(":", false) >> tagged(name, "", ","), t); break;
	case 1: run(g, "no tuple", *w::lim<4>(w::alpha) >> ':' >> *w::lim<4>(w::alpha), name >> set(":", false) >> name, t); break;
	case 2: run(g, "omit", w::omit[w::int_] >> ':' >> w::alpha, omit(I) >> set(":", false) >> A, t); break;
	case 3: run(g, "replace", w::replace(7)[w::lit("ab")] >> w::alpha, tagged(repl(str("ab", false), "<7>"), "", ",") >> tagged(A, "", ","), t); break;
	case 4: run(g, "replace char", (w::replace('Q')[w::lit("ab")] | w::alpha) >> w::digit, (repl(str("ab", false), "Q") | A) >> chr(c_digit), t); break;
	case 5: run(g, "as_array", w::as_array[w::int_] >> ':' >> w::as_array[w::int_], I >> set(":", false) >> I, t); break;
	case 6: run(g, "repeat(2)", w::repeat(2)[w::lim<5>(w::alpha)], many(A, false, none(), 2, 5, discard, "", 5), t); break;
	case 7: run(g, "repeat(3) no limit", w::repeat(3)[w::alpha_] >> w::digit, many(chr(c_alpha, false), false, none(), 3) >> chr(c_digit), t); break;
	case 8: run(g, "repeat exactly 4", w::repeat[w::lim<4>(w::xdigit)], many(chr(c_xdigit), false, none(), 4, 4, discard, "", 4), t); break;
	case 9: run(g, "repeat exactly 2 hex8f", w::repeat[w::lim<2>(w::hex8f)], many(num<std::uint8_t>(16, 2, 2), false, none(), 2, 2, discard, "<0>", 2), t); break;
	case 10: run(g, "repeat any number", w::repeat[w::alpha_] >> w::digit, many(chr(c_alpha, false), false, none(), 0) >> chr(c_digit), t); break;
	default: run(g, "repeat(1)", w::repeat(1)[w::lim<3>(w::alpha)] >> w::digit, many(A, false, none(), 1, 3, discard, "", 3) >> chr(c_digit), t); break;
	}
}
#endif
#if PART == 0 || PART == 3
PROP(repetitions, 4) {
	V t = {"a", "b", "abc", "1", "2", "34", " ", "x", "-5"};
	P I = num<std::intmax_t>(10, 1, -1), A = chr(c_alpha), N = tagged(I, "", "") >> set(" ", false);
	switch (g.draw(14)) {
	case 0: run(g, "*alpha discard", *w::lim<3>(w::alpha) >> *w::alpha_, many(A, false, none(), 0, 3) >> omit(many(A, false, none(), 0)), t); break;
	case 1: run(g, "*alpha circular", *w::lim<3>(w::alpha, w::limited::circular) >> w::omit[-w::digit_], many(A, false, none(), 0, 3, circular) >> opt(chr(c_digit, false)), t); break;
	case 2: run(g, "*alpha stopover", *w::lim<3>(w::alpha, w::limited::stopover) >> w::char_, many(A, false, none(), 0, 3, stopover) >> any(), t); break;
	case 3: run(g, "+alpha discard", +w::lim<3>(w::alpha) >> w::digit, many(A, false, none(), 1, 3) >> chr(c_digit), t); break;
	case 4: run(g, "+alpha circular", +w::lim<3>(w::alpha, w::limited::circular), many(A, false, none(), 1, 3, circular), t); break;
	case 5: run(g, "+alpha stopover", +w::lim<3>(w::alpha, w::limited::stopover) >> w::char_, many(A, false, none(), 1, 3, stopover) >> any(), t); break;
	case 6: run(g, "*(int ' ')", *w::lim<4>(w::int_ >> ' '), many(N, false, none(), 0, 4, discard, "<0>"), t); break;
	case 7: run(g, "+(int ' ')", +w::lim<4>(w::int_ >> ' '), many(N, false, none(), 1, 4, discard, "<0>"), t); break;
	case 8: run(g, "*alpha_ no limit", *w::alpha_ >> w::digit, many(chr(c_alpha, false), false, none(), 0) >> chr(c_digit), t); break;
	case 9: run(g, "+alpha_ no limit", +w::alpha_ >> w::digit, many(chr(c_alpha, false), false, none(), 1) >> chr(c_digit), t); break;
	case 10: run(g, "*(alpha digit)", *w::lim<4>(w::alpha >> w::digit), many(A >> chr(c_digit), false, none(), 0, 4), t); break;
	case 11: run(g, "*(int ' ') circular", *w::lim<3>(w::int_ >> ' ', w::limited::circular), many(N, false, none(), 0, 3, circular, "<0>"), t); break;
	case 12: run(g, "*(int ' ') stopover", *w::lim<3>(w::int_ >> ' ', w::limited::stopover), many(N, false, none(), 0, 3, stopover, "<0>"), t); break;
	default: run(g, "*(alpha | digit) >> eoi", *w::lim<24>(w::alpha | w::digit) >> w::eoi, many(A | chr(c_digit), false, none(), 0, 24) >> no(any()), t); break;
	}
}
PROP(lists, 3) {
	V t = {"1", "2", "34", ",", ",", ",", "-5", "a", "b", ", "};
	P I = num<std::intmax_t>(10, 1, -1), A = chr(c_alpha), C = set(",", false);
	switch (g.draw(8)) {
	case 0: run(g, "int % ','", w::lim<4>(w::int_) % ',', many(I, true, C, 1, 4, discard, "<0>"), t); break;
	case 1: run(g, "int % ',' circular", w::lim<3>(w::int_, w::limited::circular) % ',', many(I, true, C, 1, 3, circular, "<0>"), t); break;
	case 2: run(g, "int % ',' stopover", w::lim<3>(w::int_, w::limited::stopover) % ',', many(I, true, C, 1, 3, stopover, "<0>"), t); break;
	case 3: run(g, "alpha % ','", w::lim<4>(w::alpha) % ',', many(A, true, C, 1, 4), t); break;
	case 4: run(g, "alpha_ % ','", w::alpha_ % ',', many(chr(c_alpha, false), true, C, 1), t); break;
	case 5: run(g, "(alpha digit) % (',' -' ')", w::lim<4>(w::alpha >> w::digit) % (w::lit(',') >> -w::lit(' ')), many(A >> chr(c_digit), true, C >> opt(set(" ", false)), 1, 4), t); break;
	case 6: run(g, "alpha % ',' stopover", w::lim<2>(w::alpha, w::limited::stopover) % ',' , many(A, true, C, 1, 2, stopover), t); break;
	default: run(g, "alpha % ',' circular", w::lim<2>(w::alpha, w::limited::circular) % ',' , many(A, true, C, 1, 2, circular), t); break;
	}
}
PROP(actions, 2) {
	V t = {"1", "2", "34", "-", ",", "-5", "a"};
	P I = num<std::intmax_t>(10, 1, -1);
	switch (g.draw(2)) {
	case 0: run(g, "int ->* f", w::uint16 ->* plus1(), P([](std::string const& s, std::size_t p) {
		R r = num<std::uint16_t>(10, 1, 5)(s, p);
		if (r.ok && !r.vague) r.attr = "<" + std::to_string(std::stol(r.attr.substr(1)) + 1) + ">";
		return r; }), t); break;
	default: run(g, "',' (int ->* f)", ',' >> (w::uint8 ->* plus1()), set(",", false) >> P([](std::string const& s, std::size_t p) {
		R r = num<std::uint8_t>(10, 1, 3)(s, p);
		if (r.ok && !r.vague) r.attr = "<" + std::to_string(std::stol(r.attr.substr(1)) + 1) + ">";
		return r; }), t); break;
	}
}
#endif
