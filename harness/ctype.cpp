// N02: character classification and case mapping against the C locale
#include "pbt.hpp"
#include <sprout/ctype.hpp>
#include <sprout/cctype.hpp>
#include <sprout/cwctype.hpp>
#include <cctype>
#include <locale>
#undef isalnum
using namespace pbt;

template<typename C> long some_char(G& g) {
	if (sizeof(C) == 1) return long(C(g.draw(256)));
	switch (g.draw(4)) { case 0: case 1: return g.draw(130); case 2: return g.draw(0x300); default: return long(C(g.integer<unsigned>())); }
}
template<typename C> void classes_(G& g) {
	long v = some_char<C>(g); C c = C(v);
	bool asc = sizeof(C) == 1 ? (unsigned char)c < 128 : (unsigned long)c < 128;
	int i = asc ? int(c) : -1;
	g.note("c", v); g.nontrivial(asc);
#define ONE(f) do { bool e = asc && std::f(i) != 0; CHECK_EQ(sprout::f(c), e); CHECK_EQ(sprout::ascii::f(c), e); } while (0)
	ONE(isalnum); ONE(isalpha); ONE(isblank); ONE(iscntrl); ONE(isdigit); ONE(isgraph); ONE(islower); ONE(isprint); ONE(ispunct); ONE(isspace); ONE(isupper); ONE(isxdigit);
#undef ONE
	C lo = asc ? C(std::tolower(i)) : c, up = asc ? C(std::toupper(i)) : c;
	CHECK(sprout::tolower(c) == lo); CHECK(sprout::toupper(c) == up);
	CHECK(sprout::ctypes::to_lower<C>()(c) == lo); CHECK(sprout::ctypes::to_upper<>()(c) == up);
#define FN(f, s) do { bool e = asc && std::s(i) != 0; CHECK_EQ(sprout::ctypes::f<C>()(c), e); CHECK_EQ(sprout::ctypes::f<>()(c), e); } while (0)
	FN(is_alnum, isalnum); FN(is_alpha, isalpha); FN(is_blank, isblank); FN(is_cntrl, iscntrl); FN(is_digit, isdigit); FN(is_graph, isgraph); FN(is_lower, islower);
	FN(is_print, isprint); FN(is_punct, ispunct); FN(is_space, isspace); FN(is_upper, isupper); FN(is_xdigit, isxdigit);
#undef FN
	C d = C(some_char<C>(g)); if (g.chance(1, 3)) d = g.flag() ? lo : up;
	bool dasc = sizeof(C) == 1 ? (unsigned char)d < 128 : (unsigned long)d < 128;
	bool eq = lo == (dasc ? C(std::tolower(int(d))) : d);
	g.note("d", long(d));
	CHECK_EQ(sprout::ctypes::nocase_equal_to<C>()(c, d), eq); CHECK_EQ(sprout::ctypes::nocase_not_equal_to<C>()(c, d), !eq);
	CHECK_EQ(sprout::ctypes::nocase_equal_to<>()(c, d), eq); CHECK_EQ(sprout::ctypes::nocase_not_equal_to<>()(c, d), !eq);
	// a mask is the union of its classes
	static const std::ctype_base::mask ms[] = {std::ctype_base::space, std::ctype_base::print, std::ctype_base::cntrl, std::ctype_base::upper, std::ctype_base::lower,
		std::ctype_base::alpha, std::ctype_base::digit, std::ctype_base::punct, std::ctype_base::xdigit, std::ctype_base::blank, std::ctype_base::alnum, std::ctype_base::graph};
	std::ctype_base::mask m = g.pick(ms); if (g.flag()) m = std::ctype_base::mask(m | g.pick(ms)); if (g.chance(1, 12)) m = std::ctype_base::mask();
	bool e = asc && std::use_facet<std::ctype<char> >(std::locale::classic()).is(m, char(i));
	g.note("mask", int(m));
	CHECK_EQ(sprout::isclassified(sprout::ctypes::mask(m), c), e);
	CHECK_EQ(sprout::ctypes::is_classified<C>(sprout::ctypes::mask(m))(c), e); CHECK_EQ(sprout::ctypes::is_classified<>(sprout::ctypes::mask(m))(c), e);
}
PROP_INST(classes_char, 6, classes_<char>)
PROP_INST(classes_wchar, 4, classes_<wchar_t>)
PROP_INST(classes_char16, 4, classes_<char16_t>)
PROP_INST(classes_char32, 4, classes_<char32_t>)
PROP(wide_names, 4) {
	wchar_t c = wchar_t(some_char<wchar_t>(g)); bool asc = (unsigned long)c < 128; int i = asc ? int(c) : -1;
	g.note("c", long(c)); g.nontrivial(asc);
#define ONE(w, f) CHECK_EQ(sprout::w(c), (asc && std::f(i) != 0))
	ONE(iswalnum, isalnum); ONE(iswalpha, isalpha); ONE(iswblank, isblank); ONE(iswcntrl, iscntrl); ONE(iswdigit, isdigit); ONE(iswgraph, isgraph); ONE(iswlower, islower);
	ONE(iswprint, isprint); ONE(iswpunct, ispunct); ONE(iswspace, isspace); ONE(iswupper, isupper); ONE(iswxdigit, isxdigit);
	CHECK(sprout::towlower(c) == (asc ? wchar_t(std::tolower(i)) : c)); CHECK(sprout::towupper(c) == (asc ? wchar_t(std::toupper(i)) : c));
}
