// straightforward reference digests (RFC 1321, FIPS 180-4), checked against published vectors at start-up
#ifndef HASHREF_HPP
#define HASHREF_HPP
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <cstdlib>
#include <cstdio>
namespace ref {
	typedef std::vector<uint8_t> Bytes;
	inline uint32_t rl(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
	inline Bytes pad(Bytes m, bool big) { uint64_t n = uint64_t(m.size()) * 8; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); for (int i = 0; i < 8; ++i) m.push_back(uint8_t(n >> (8 * (big ? 7 - i : i)))); return m; }
	inline Bytes sha1(Bytes const& in) {
		Bytes m = pad(in, true); uint32_t h[5] = {0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u};
		for (size_t o = 0; o < m.size(); o += 64) {
			uint32_t w[80]; for (int i = 0; i < 16; ++i) w[i] = uint32_t(m[o + 4 * i]) << 24 | uint32_t(m[o + 4 * i + 1]) << 16 | uint32_t(m[o + 4 * i + 2]) << 8 | m[o + 4 * i + 3];
			for (int i = 16; i < 80; ++i) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
			uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
			for (int i = 0; i < 80; ++i) { uint32_t f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999u; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1u; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDCu; } else { f = b ^ c ^ d; k = 0xCA62C1D6u; } uint32_t t = rl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl(b, 30); b = a; a = t; }
			h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
		}
		Bytes r; for (int i = 0; i < 5; ++i) for (int j = 3; j >= 0; --j) r.push_back(uint8_t(h[i] >> (8 * j))); return r;
	}
	inline Bytes md5(Bytes const& in) {
		static const int s[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
		Bytes m = pad(in, false); uint32_t h[4] = {0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u};
		for (size_t o = 0; o < m.size(); o += 64) {
			uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
			for (int i = 0; i < 64; ++i) {
				uint32_t f; int k; if (i < 16) { f = (b & c) | (~b & d); k = i; } else if (i < 32) { f = (d & b) | (~d & c); k = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; k = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); k = (7 * i) % 16; }
				uint32_t w = uint32_t(m[o + 4 * k]) | uint32_t(m[o + 4 * k + 1]) << 8 | uint32_t(m[o + 4 * k + 2]) << 16 | uint32_t(m[o + 4 * k + 3]) << 24;
				f += a + uint32_t(std::floor(std::fabs(std::sin(double(i + 1))) * 4294967296.0)) + w; a = d; d = c; c = b; b += rl(f, s[i]);
			}
			h[0] += a; h[1] += b; h[2] += c; h[3] += d;
		}
		Bytes r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.push_back(uint8_t(h[i] >> (8 * j))); return r;
	}
	inline std::string hex(Bytes const& b) { std::string s; char t[4]; for (auto x : b) { std::snprintf(t, 4, "%02x", x); s += t; } return s; }
	inline Bytes of(std::string const& s) { return Bytes(s.begin(), s.end()); }
	struct SelfTest { SelfTest() {
		if (hex(sha1(of("abc"))) != "a9993e364706816aba3e25717850c26c9cd0d89d" || hex(sha1(of("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"))) != "84983e441c3bd26ebaae4aa1f95129e5e54670f1" || hex(md5(of("message digest"))) != "f96b697d7cb7938d525a2f31aaf161d0" || hex(md5(of("12345678901234567890123456789012345678901234567890123456789012345678901234567890"))) != "57edf4a22be3c955ac49da2e2107b67a") { std::fprintf(stderr, "hashref: reference digests are wrong\n"); std::_Exit(3); }
	} };
	static SelfTest self_test;
}
#endif
