// <cstring> / <cwchar> counterparts against the C library, on exactly-sized heap buffers (AddressSanitizer sees any overrun).
#include "pbt.hpp"
#include <sprout/cstring.hpp>
#include <sprout/cwchar.hpp>
#include <memory>
#include <cwchar>
using pbt::G;
namespace {
	int sg(long x) { return x < 0 ? -1 : x > 0; }
	template<class C> std::basic_string<C> alpha(bool zero) {
		std::basic_string<C> r; r += C('a'); r += C('b'); r += C('A'); r += C(sizeof(C) == 1 ? 0xE9 : 0x3042); r += C(sizeof(C) == 1 ? 0x80 : 0x7fffffff); if (zero) r += C(0); return r;
	}
	template<class C> std::vector<long> codes(std::basic_string<C> const& s) { return std::vector<long>(s.begin(), s.end()); }
	template<class C> std::basic_string<C> gen(G& g, size_t n, bool zero = false) { std::basic_string<C> a = alpha<C>(zero); if (g.flag()) a.resize(2); return g.str(n, a); }
	// exactly sized copy
	template<class C> struct Buf {
		std::unique_ptr<C[]> p; size_t n;
		Buf(std::basic_string<C> const& s, bool term) : p(new C[s.size() + (term ? 1 : 0)]), n(s.size() + (term ? 1 : 0)) { std::copy(s.begin(), s.end(), p.get()); if (term) p[s.size()] = C(); }
		explicit Buf(size_t n_, C c) : p(new C[n_]), n(n_) { std::fill(p.get(), p.get() + n, c); }
		operator C*() { return p.get(); }
		C const* c() const { return p.get(); }
		std::vector<long> v() const { return std::vector<long>(p.get(), p.get() + n); }
	};
	// the C library, per character type
	struct L8 {
		static size_t len(char const* a) { return std::strlen(a); } static int cmp(char const* a, char const* b) { return std::strcmp(a, b); } static int ncmp(char const* a, char const* b, size_t n) { return std::strncmp(a, b, n); }
		static char const* chr(char const* a, char c) { return std::strchr(a, c); } static char const* rchr(char const* a, char c) { return std::strrchr(a, c); } static size_t spn(char const* a, char const* b) { return std::strspn(a, b); } static size_t cspn(char const* a, char const* b) { return std::strcspn(a, b); }
		static char const* pbrk(char const* a, char const* b) { return std::strpbrk(a, b); } static char const* str(char const* a, char const* b) { return std::strstr(a, b); } static char* cpy(char* a, char const* b) { return std::strcpy(a, b); } static char* ncpy(char* a, char const* b, size_t n) { return std::strncpy(a, b, n); }
		static char* cat(char* a, char const* b) { return std::strcat(a, b); } static char* ncat(char* a, char const* b, size_t n) { return std::strncat(a, b, n); }
	};
	struct S8 {
		static size_t len(char const* a) { return sprout::strlen(a); } static int cmp(char const* a, char const* b) { return sprout::strcmp(a, b); } static int ncmp(char const* a, char const* b, size_t n) { return sprout::strncmp(a, b, n); }
		static char const* chr(char const* a, char c) { return sprout::strchr(a, c); } static char const* rchr(char const* a, char c) { return sprout::strrchr(a, c); } static size_t spn(char const* a, char const* b) { return sprout::strspn(a, b); } static size_t cspn(char const* a, char const* b) { return sprout::strcspn(a, b); }
		static char const* pbrk(char const* a, char const* b) { return sprout::strpbrk(a, b); } static char const* str(char const* a, char const* b) { return sprout::strstr(a, b); } static char* cpy(char* a, char const* b) { return sprout::strcpy(a, b); } static char* ncpy(char* a, char const* b, size_t n) { return sprout::strncpy(a, b, n); }
		static char* cat(char* a, char const* b) { return sprout::strcat(a, b); } static char* ncat(char* a, char const* b, size_t n) { return sprout::strncat(a, b, n); }
		static char* mchr(char* a, char c) { return sprout::strchr(a, c); } static char* mrchr(char* a, char c) { return sprout::strrchr(a, c); } static char* mpbrk(char* a, char const* b) { return sprout::strpbrk(a, b); } static char* mstr(char* a, char const* b) { return sprout::strstr(a, b); }
		static int coll(char const* a, char const* b) { return sprout::strcoll(a, b); }
	};
	struct LW {
		typedef wchar_t C;
		static size_t len(C const* a) { return std::wcslen(a); } static int cmp(C const* a, C const* b) { return std::wcscmp(a, b); } static int ncmp(C const* a, C const* b, size_t n) { return std::wcsncmp(a, b, n); }
		static C const* chr(C const* a, C c) { return std::wcschr(a, c); } static C const* rchr(C const* a, C c) { return std::wcsrchr(a, c); } static size_t spn(C const* a, C const* b) { return std::wcsspn(a, b); } static size_t cspn(C const* a, C const* b) { return std::wcscspn(a, b); }
		static C const* pbrk(C const* a, C const* b) { return std::wcspbrk(a, b); } static C const* str(C const* a, C const* b) { return std::wcsstr(a, b); } static C* cpy(C* a, C const* b) { return std::wcscpy(a, b); } static C* ncpy(C* a, C const* b, size_t n) { return std::wcsncpy(a, b, n); }
		static C* cat(C* a, C const* b) { return std::wcscat(a, b); } static C* ncat(C* a, C const* b, size_t n) { return std::wcsncat(a, b, n); }
	};
	struct SW {
		typedef wchar_t C;
		static size_t len(C const* a) { return sprout::wcslen(a); } static int cmp(C const* a, C const* b) { return sprout::wcscmp(a, b); } static int ncmp(C const* a, C const* b, size_t n) { return sprout::wcsncmp(a, b, n); }
		static C const* chr(C const* a, C c) { return sprout::wcschr(a, c); } static C const* rchr(C const* a, C c) { return sprout::wcsrchr(a, c); } static size_t spn(C const* a, C const* b) { return sprout::wcsspn(a, b); } static size_t cspn(C const* a, C const* b) { return sprout::wcscspn(a, b); }
		static C const* pbrk(C const* a, C const* b) { return sprout::wcspbrk(a, b); } static C const* str(C const* a, C const* b) { return sprout::wcsstr(a, b); } static C* cpy(C* a, C const* b) { return sprout::wcscpy(a, b); } static C* ncpy(C* a, C const* b, size_t n) { return sprout::wcsncpy(a, b, n); }
		static C* cat(C* a, C const* b) { return sprout::wcscat(a, b); } static C* ncat(C* a, C const* b, size_t n) { return sprout::wcsncat(a, b, n); }
		static C* mchr(C* a, C c) { return sprout::wcschr(a, c); } static C* mrchr(C* a, C c) { return sprout::wcsrchr(a, c); } static C* mpbrk(C* a, C const* b) { return sprout::wcspbrk(a, b); } static C* mstr(C* a, C const* b) { return sprout::wcsstr(a, b); }
		static int coll(C const* a, C const* b) { return sprout::wcscoll(a, b); }
	};
	template<class C, class L, class X> void queries(G& g) {
		typedef std::basic_string<C> S;
		S sa = gen<C>(g, g.chance(1, 8) ? 200 : 20), sb = gen<C>(g, 8);
		if (g.chance(1, 3)) { size_t i = g.draw(sa.size() + 1); sb = sa.substr(i, g.draw(sa.size() - i + 1)); if (g.chance(1, 3)) sb += alpha<C>(false)[size_t(g.draw(5))]; }
		if (g.chance(1, 6)) { sb = sa; if (!sb.empty() && g.flag()) sb[g.draw(sb.size())] = alpha<C>(false)[size_t(g.draw(5))]; }
		C c = g.chance(1, 6) ? C() : alpha<C>(false)[size_t(g.draw(5))]; size_t n = g.draw(std::max(sa.size(), sb.size()) + 3);
		g.note("a", codes(sa)); g.note("b", codes(sb)); g.note("c", long(c)); g.note("n", n); g.nontrivial(sa.size() > 1 && !sb.empty());
		Buf<C> ba(sa, true), bb(sb, true); C const* a = ba; C const* b = bb;
		CHECK_EQ(X::len(a), L::len(a)); CHECK_EQ(sg(X::cmp(a, b)), sg(L::cmp(a, b))); CHECK_EQ(sg(X::coll(a, b)), sg(L::cmp(a, b))); CHECK_EQ(sg(X::ncmp(a, b, n)), sg(L::ncmp(a, b, n)));
		// not terminated within n
		{ size_t k = g.draw(std::min(sa.size(), sb.size()) + 1); Buf<C> ua(sa.substr(0, k), false), ub(sb.substr(0, k), false); CHECK_EQ(sg(X::ncmp(ua, ub, k)), sg(L::ncmp(ba, bb, k))); }
#define OFF(p, base) ((p) ? long((p) - (base)) : -1L)
		CHECK_EQ(OFF(X::chr(a, c), a), OFF(L::chr(a, c), a)); CHECK_EQ(OFF(X::rchr(a, c), a), OFF(L::rchr(a, c), a)); CHECK_EQ(X::spn(a, b), L::spn(a, b)); CHECK_EQ(X::cspn(a, b), L::cspn(a, b));
		CHECK_EQ(OFF(X::pbrk(a, b), a), OFF(L::pbrk(a, b), a)); CHECK_EQ(OFF(X::str(a, b), a), OFF(L::str(a, b), a));
		C* m = ba; CHECK_EQ(OFF(X::mchr(m, c), m), OFF(L::chr(a, c), a)); CHECK_EQ(OFF(X::mrchr(m, c), m), OFF(L::rchr(a, c), a)); CHECK_EQ(OFF(X::mpbrk(m, b), m), OFF(L::pbrk(a, b), a)); CHECK_EQ(OFF(X::mstr(m, b), m), OFF(L::str(a, b), a));
	}
	PROP_INST(queries_char, 8, queries<char, L8, S8>) PROP_INST(queries_wchar, 4, queries<wchar_t, LW, SW>)
	template<class C, class L, class X> void edits(G& g) {
		typedef std::basic_string<C> S; S sa = gen<C>(g, 12), sb = gen<C>(g, 12); size_t n = g.draw(sb.size() + 5); g.note("a", codes(sa)); g.note("b", codes(sb)); g.note("n", n); g.nontrivial(!sb.empty());
		Buf<C> b(sb, true);
		{ Buf<C> x(sb.size() + 1, C('#')), y(sb.size() + 1, C('#')); C* r = X::cpy(x, b); CHECK(r == x.c()); L::cpy(y, b); CHECK_EQ(x.v(), y.v()); }
		{ Buf<C> x(n, C('#')), y(n, C('#')); C* r = X::ncpy(x, b, n); CHECK(r == x.c()); L::ncpy(y, b, n); CHECK_EQ(x.v(), y.v()); }
		{ Buf<C> x(sa.size() + sb.size() + 1, C('#')), y(sa.size() + sb.size() + 1, C('#')); L::cpy(x, sa.c_str()); L::cpy(y, sa.c_str()); C* r = X::cat(x, b); CHECK(r == x.c()); L::cat(y, b); CHECK_EQ(x.v(), y.v()); }
		{ size_t k = sa.size() + std::min(n, sb.size()) + 1; Buf<C> x(k, C('#')), y(k, C('#')); L::cpy(x, sa.c_str()); L::cpy(y, sa.c_str()); C* r = X::ncat(x, b, n); CHECK(r == x.c()); L::ncat(y, b, n); CHECK_EQ(x.v(), y.v()); }
		{ size_t k = std::min(n, sb.size()); Buf<C> u(sb.substr(0, k), false), x(k, C('#')), y(k, C('#')); X::ncpy(x, u, k); L::ncpy(y, u, k); CHECK_EQ(x.v(), y.v()); }	// unterminated source
	}
	PROP_INST(edits_char, 3, edits<char, L8, S8>) PROP_INST(edits_wchar, 2, edits<wchar_t, LW, SW>)
	PROP(memory_bytes, 5) {
		typedef std::basic_string<unsigned char> S; S sa = gen<unsigned char>(g, 24, true), sb = gen<unsigned char>(g, 24, true); if (g.chance(1, 3)) { sb = sa; if (!sb.empty()) sb[g.draw(sb.size())] ^= (unsigned char)(g.draw(256)); }
		size_t n = std::min(sa.size(), sb.size()); int c = g.irange(-300, 300); if (g.flag() && n) c = sa[g.draw(n)]; g.note("a", codes(sa)); g.note("b", codes(sb)); g.note("c", c); g.nontrivial(n > 1);
		Buf<unsigned char> a(sa, false), b(sb, false); void const* va = a.c(); void const* vb = b.c();
		CHECK_EQ(sg(sprout::memcmp(va, vb, n)), sg(std::memcmp(va, vb, n)));
		{ size_t m = g.draw(sa.size() + 1); void const* r = sprout::memchr(va, c, m); void const* w = std::memchr(va, c, m); CHECK_EQ(r ? (unsigned char const*)r - a.c() : -1L, w ? (unsigned char const*)w - a.c() : -1L); }
		{ Buf<unsigned char> x(sb.size(), '#'); void* r = sprout::memcpy((void*)(unsigned char*)x, vb, sb.size()); CHECK(r == x.c()); CHECK_EQ(x.v(), b.v()); }
		{ Buf<unsigned char> x(sa, false); size_t m = g.draw(sa.size() + 1); sprout::memset((void*)(unsigned char*)x, c, m); S w(sa); if (m) std::memset(&w[0], c, m); CHECK_EQ(x.v(), codes(w)); }
		{ Buf<unsigned char> x(sa, false), y(sa, false); size_t m = g.draw(sa.size() + 1), i = g.draw(sa.size() - m + 1), j = g.draw(sa.size() - m + 1); g.note("move", std::vector<size_t>{i, j, m}); unsigned char* px = x; unsigned char* py = y; sprout::memmove((void*)(px + i), (void const*)(px + j), m); std::memmove(py + i, py + j, m); CHECK_EQ(x.v(), y.v()); }
	}
	PROP(memory_wide, 4) {
		typedef std::wstring S; S sa = gen<wchar_t>(g, 24, true), sb = gen<wchar_t>(g, 24, true); if (g.chance(1, 3)) { sb = sa; if (!sb.empty()) sb[g.draw(sb.size())] = wchar_t(g.irange(-5, 100)); }
		size_t n = std::min(sa.size(), sb.size()); wchar_t c = wchar_t(g.irange(-3, 100)); if (g.flag() && n) c = sa[g.draw(n)]; g.note("a", codes(sa)); g.note("b", codes(sb)); g.note("c", long(c)); g.nontrivial(n > 1);
		Buf<wchar_t> a(sa, false), b(sb, false);
		CHECK_EQ(sg(sprout::wmemcmp(a.c(), b.c(), n)), sg(std::wmemcmp(a.c(), b.c(), n)));
		{ size_t m = g.draw(sa.size() + 1); wchar_t const* r = sprout::wmemchr(a.c(), c, m); wchar_t const* w = std::wmemchr(a.c(), c, m); CHECK_EQ(OFF(r, a.c()), OFF(w, a.c())); }
		{ Buf<wchar_t> x(sb.size(), L'#'); CHECK(sprout::wmemcpy(x, b.c(), sb.size()) == x.c()); CHECK_EQ(x.v(), b.v()); }
		{ Buf<wchar_t> x(sa, false); size_t m = g.draw(sa.size() + 1); CHECK(sprout::wmemset(x, c, m) == x.c()); S w(sa); for (size_t i = 0; i < m; ++i) w[i] = c; CHECK_EQ(x.v(), codes(w)); }
		{ Buf<wchar_t> x(sa, false), y(sa, false); size_t m = g.draw(sa.size() + 1), i = g.draw(sa.size() - m + 1), j = g.draw(sa.size() - m + 1); g.note("move", std::vector<size_t>{i, j, m}); wchar_t* px = x; wchar_t* py = y; CHECK(sprout::wmemmove(px + i, px + j, m) == px + i); std::wmemmove(py + i, py + j, m); CHECK_EQ(x.v(), y.v()); }
	}
}
