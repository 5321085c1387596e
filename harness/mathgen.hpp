#pragma once
#include <cmath>
#include <limits>
#include "pbt.hpp"
#include <sprout/math/functions.hpp>
namespace mg {
	using pbt::G;
	// a value of T: every class of value, then magnitudes and bit patterns of that type
	template<class T> T value(G& g) {
		typedef std::numeric_limits<T> L;
		T x;
		switch (g.draw(6)) {
		case 0: { T sp[] = {L::max(), -L::max(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2, T(0.5) - L::epsilon() / 4, L::min() / 2, L::infinity(), -L::infinity(), L::quiet_NaN(), T(0), -T(0), T(1) / L::epsilon(), T(1) / L::epsilon() - T(0.5)}; x = sp[g.draw(sizeof(sp) / sizeof(*sp))]; break; }
		case 1: { int e = int(g.range(L::min_exponent - L::digits, L::max_exponent)); x = std::ldexp(T(1) + T(g.draw(uint64_t(1) << 52)) / T(uint64_t(1) << 52), e); if (g.flag()) x = -x; break; }
		case 2: { x = T(g.range(-70, 70)) + T(g.pick({0.0, 0.5, 0.25, -0.5, 0.125})); x = std::nextafter(x, T(g.range(-1, 1)) * 1000); break; }
		default: x = T(g.real()); if (sizeof(T) > 8 && g.chance(1, 3)) x = x * (T(1) + L::epsilon() * T(g.draw(2048)));
		}
		return x;
	}
	template<class T> bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
	template<class T> std::string hex(T x) { char b[80]; snprintf(b, sizeof b, "%.21Lg (%La)", (long double)x, (long double)x); return b; }
	// distance in units in the last place of the reference value
	template<class T> double ulps(T got, long double want) {
		T w = T(want);
		if (std::isnan(want)) return std::isnan(got) ? 0 : 1e30;
		if (got == w) return std::signbit(got) == std::signbit(w) || w != 0 ? 0 : 1e30;
		if (std::isnan(got) || std::isinf(got) || std::isinf(w)) return 1e29;
		T a = std::fabs(w), u = std::nextafter(a, std::numeric_limits<T>::infinity()) - a;
		return double(std::fabs((long double)(got) - want) / u);
	}
}
#define SAME(got, want) do { auto g_ = (got); decltype(g_) w_ = (want); CHECK_MSG(mg::same(g_, w_), #got << " got " << mg::hex(g_) << " expected " << mg::hex(w_)); } while (0)
