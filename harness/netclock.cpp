// L03: calendar time and byte order
#include <sprout/config.hpp>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <string>
#include <sprout/ctime.hpp>
#include <sprout/net/endian.hpp>
#include "pbt.hpp"

// ---------------------------------------------------------------- calendar time
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
PROP(to_time_t_fields, 4) {
	int y = g.flag() ? 1970 + (int)g.draw(200) : g.flag() ? 1970 + (int)g.draw(3000) : 100 * (20 + (int)g.draw(20)) - (int)g.draw(2) * (int)g.draw(2);
	int mo = 1 + (int)g.draw(12); if (g.chance(1, 3)) mo = 1 + (int)g.draw(3);
	int d = g.chance(1, 3) ? mdays(y, mo) : 1 + (int)g.draw(mdays(y, mo));
	int h = (int)g.draw(24), mi = (int)g.draw(60), s = (int)g.draw(60);
	g.note("y", y); g.note("mo", mo); g.note("d", d); g.note("h", h); g.note("mi", mi); g.note("s", s);
	std::tm t = std::tm(); t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s;
	std::tm u = t;
	std::time_t want = timegm(&u);
	CHECK_EQ(sprout::to_time_t(y, mo, d, h, mi, s), want);
	CHECK_EQ(sprout::to_time_t(t), want);
	if (y < 10000) {
		static const char* const mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
		char date[40], tim[40];
		std::snprintf(date, sizeof date, "%s %2d %04d", mn[mo - 1], d, y);   // the shape of __DATE__
		std::snprintf(tim, sizeof tim, "%02d:%02d:%02d", h, mi, s);         // the shape of __TIME__
		CHECK_EQ(sprout::to_time_t((const char*)date, (const char*)tim), want);
		std::string sd(date), st(tim);
		CHECK_EQ(sprout::to_time_t(sd.begin(), st.begin()), want);
	}
	std::time_t other = want + (std::time_t)g.range(-100000000, 100000000);
	CHECK_EQ(sprout::difftime(want, other), std::difftime(want, other));
	g.nontrivial(mo <= 2 || d == mdays(y, mo));
}

// ---------------------------------------------------------------- byte order
template<class T> static T be(T v) { unsigned char b[sizeof(T)]; for (std::size_t i = 0; i < sizeof(T); ++i) b[i] = (unsigned char)((unsigned long long)v >> (8 * (sizeof(T) - 1 - i))); T r; std::memcpy(&r, b, sizeof r); return r; }
template<class T> void endian(pbt::G& g) {
	T v = g.integer<T>();
	g.note("v", (unsigned long long)v);
	g.nontrivial(be(v) != v);
	CHECK_EQ(+sprout::net::hton(v), +be(v));
	CHECK_EQ(+sprout::net::ntoh(be(v)), +v);
	CHECK_EQ(+sprout::net::ntoh(sprout::net::hton(v)), +v);
}
PROP_INST(endian_u16, 1, endian<std::uint16_t>);
PROP_INST(endian_u32, 1, endian<std::uint32_t>);
PROP_INST(endian_u64, 1, endian<std::uint64_t>);
PROP(endian_named, 1) {
	std::uint8_t c = g.integer<std::uint8_t>(); std::uint16_t s = g.integer<std::uint16_t>(); std::uint32_t l = g.integer<std::uint32_t>();
	g.note("l", l); g.note("s", s); g.note("c", c);
	CHECK_EQ(+sprout::net::hton(c), +c); CHECK_EQ(+sprout::net::ntoh(c), +c);
	CHECK_EQ(sprout::net::htonl(l), be(l)); CHECK_EQ(sprout::net::ntohl(l), be(l));
	CHECK_EQ(sprout::net::htons(s), be(s)); CHECK_EQ(sprout::net::ntohs(s), be(s));
	g.nontrivial(be(l) != l);
}
