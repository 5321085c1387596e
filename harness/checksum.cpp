// checksums: histories of chunked updates, in both the constant and the mutating style, against reference digests
#include "pbt.hpp"
#include "hashref.hpp"
#include <sprout/checksum/md5.hpp>
#include <sprout/checksum/sha1.hpp>
#include <sprout/checksum/sum.hpp>
#include <sprout/checksum/xor.hpp>
#include <sprout/iterator/bytes_iterator.hpp>
#include <sprout/endian_traits.hpp>
#include <sprout/string.hpp>
#include <list>
#include <cstring>
namespace {
	using pbt::G; using ref::Bytes;
	template<std::size_t N> Bytes val(sprout::array<uint8_t, N> const& a) { return Bytes(a.begin(), a.end()); }
	template<class T> Bytes ival(T v) { Bytes b; for (size_t i = sizeof(T); i-- > 0;) b.push_back(uint8_t(v >> (8 * i))); return b; }
	struct Sha1 { typedef sprout::sha1 type; static Bytes expect(Bytes const& b) { return ref::sha1(b); } static Bytes get(type const& t) { Bytes r = val(t.checksum()); CHECK_MSG(!(r != val(t())), "checksum() and operator() differ"); return r; } };
	struct Md5 { typedef sprout::md5 type; static Bytes expect(Bytes const& b) { return ref::md5(b); } static Bytes get(type const& t) { Bytes r = val(t.checksum()); CHECK_MSG(!(r != val(t())), "checksum() and operator() differ"); return r; } };
	template<class S, class V> struct Sum { typedef S type; static Bytes expect(Bytes const& b) { V v = 0; for (auto x : b) v = V(v + x); return ival(v); } static Bytes get(type const& t) { Bytes r = ival(V(t.checksum())); CHECK_MSG(!(r != ival(V(t()))), "checksum() and operator() differ"); static_assert(std::is_same<V, typename S::value_type>::value, ""); return r; } };
	struct Xor { typedef sprout::xor8 type; static Bytes expect(Bytes const& b) { uint8_t v = 0; for (auto x : b) v = uint8_t(v ^ x); return Bytes(1, v); } static Bytes get(type const& t) { Bytes r(1, t.checksum()); CHECK_MSG(!(r[0] != t()), "checksum() and operator() differ"); return r; } };
	size_t chunk(G& g) { switch (g.draw(4)) { case 0: return size_t(g.range(0, 4)); case 1: return size_t(g.range(50, 70)); case 2: return size_t(g.range(118, 134)); default: return g.size(80); } }
	Bytes bytes(G& g, size_t n) { Bytes b(n); if (g.chance(1, 3)) { uint8_t k = uint8_t(g.draw(256)); for (auto& x : b) x = k; } else for (auto& x : b) x = uint8_t(g.draw(256)); return b; }
	template<class T> Bytes mem(std::vector<T> const& v) { Bytes b; for (T x : v) for (size_t i = sizeof(T); i-- > 0;) b.push_back(uint8_t(uint64_t(x) >> (8 * i))); return b; } // most significant byte first
	template<class K> void history(G& g) {
		typename K::type cur; Bytes all; size_t steps = g.range(1, 5); bool boundary = false; std::ostringstream os;
		for (size_t i = 0; i < steps; ++i) {
			size_t n = chunk(g); if (g.chance(1, 3)) { size_t to = g.pick({55u, 56u, 57u, 63u, 64u, 65u, 119u, 120u, 127u, 128u}); if (all.size() < to) n = to - all.size(); }
			unsigned op = unsigned(g.draw(11)); os << " op" << op << "(" << n << ")"; g.note("ops", os.str());
			typename K::type const& c = cur;
			Bytes b = bytes(g, n);
			switch (op) {
			case 0: { uint8_t x = uint8_t(g.draw(256)); b.assign(1, x); cur.process_byte(x); break; }
			case 1: { uint8_t x = uint8_t(g.draw(256)); b.assign(1, x); cur = g.flag() ? c.process_byte(x) : c.c_process_byte(x); break; }
			case 2: cur.process_block(b.begin(), b.end()); break;
			case 3: cur = g.flag() ? c.process_block(b.data(), b.data() + b.size()) : c.c_process_block(b.data(), b.data() + b.size()); break;
			case 4: cur.process_bytes(b.data(), b.size()); break;
			case 5: cur = g.flag() ? c.process_bytes(b.data(), b.size()) : c.c_process_bytes(b.data(), b.size()); break;
			case 6: cur.process_range(b); break;
			case 7: cur = g.flag() ? c.process_range(b) : c.c_process_range(b); break;
			case 8: { std::vector<uint32_t> w(n / 4); for (auto& x : w) x = uint32_t(g.draw(1ull << 32)); b = mem(w); if (g.flag()) cur.process_range(w); else cur = c.c_process_range(w); break; }
			case 9: { std::vector<uint16_t> w(n / 2); for (auto& x : w) x = uint16_t(g.draw(1u << 16)); b = mem(w); if (g.flag()) cur.process_bytes(w.begin(), w.size()); else cur = c.c_process_bytes(w.begin(), w.size()); break; }
			default: { std::vector<signed char> w(n); for (auto& x : w) x = (signed char)(g.draw(256)); b = mem(w); std::list<signed char> l(w.begin(), w.end()); if (g.flag()) cur.process_block(l.begin(), l.end()); else cur = c.c_process_block(l.begin(), l.end()); }
			}
			if ((all.size() % 64) + b.size() >= 64) boundary = true;
			all.insert(all.end(), b.begin(), b.end());
			Bytes got = K::get(cur); g.nontrivial(i > 0 && boundary);
			CHECK_EQ(ref::hex(got), ref::hex(K::expect(all)));
			if (g.chance(1, 12)) { os << " reset"; cur.reset(); all.clear(); CHECK_EQ(ref::hex(K::get(cur)), ref::hex(K::expect(all))); }
		}
	}
	PROP_INST(history_sha1, 0.04, history<Sha1>) PROP_INST(history_md5, 2, history<Md5>)
	typedef Sum<sprout::sum8, uint8_t> Sum8; typedef Sum<sprout::sum16, uint16_t> Sum16; typedef Sum<sprout::sum32, uint32_t> Sum32;
	PROP_INST(history_sum8, 3, history<Sum8>) PROP_INST(history_sum16, 3, history<Sum16>) PROP_INST(history_sum32, 3, history<Sum32>) PROP_INST(history_xor8, 3, history<Xor>)
	template<class C> std::basic_string<C> text(G& g) { size_t n = g.size(70); std::basic_string<C> s; for (size_t i = 0; i < n; ++i) s.push_back(C(g.range(1, sizeof(C) == 1 ? 255 : 0xd000))); return s; }
	template<class C> void makers(G& g) {
		using namespace sprout; std::basic_string<C> s = text<C>(g); Bytes b = mem(std::vector<C>(s.begin(), s.end())); g.note("bytes", ref::hex(b)); g.nontrivial(b.size() > 3);
		sprout::basic_string<C, 80> t(s.c_str());
		CHECK_EQ(ref::hex(val(sprout::make_sha1(s.begin(), s.end()))), ref::hex(ref::sha1(b))); CHECK_EQ(ref::hex(val(sprout::make_sha1(t))), ref::hex(ref::sha1(b))); CHECK_EQ(ref::hex(val(sprout::make_sha1(s.c_str()))), ref::hex(ref::sha1(b)));
		CHECK_EQ(ref::hex(val(sprout::make_md5(s.begin(), s.end()))), ref::hex(ref::md5(b))); CHECK_EQ(ref::hex(val(sprout::make_md5(t))), ref::hex(ref::md5(b))); CHECK_EQ(ref::hex(val(sprout::make_md5(s.c_str()))), ref::hex(ref::md5(b)));
		uint32_t sum = 0; uint8_t x = 0; for (auto v : b) { sum += v; x = uint8_t(x ^ v); }
		CHECK_EQ(int(sprout::make_sum8(s.begin(), s.end())), int(uint8_t(sum))); CHECK_EQ(int(sprout::make_sum8(t)), int(uint8_t(sum))); CHECK_EQ(int(sprout::make_sum8(s.c_str())), int(uint8_t(sum)));
		CHECK_EQ(int(sprout::make_sum16(s.begin(), s.end())), int(uint16_t(sum))); CHECK_EQ(int(sprout::make_sum16(t)), int(uint16_t(sum))); CHECK_EQ(int(sprout::make_sum16(s.c_str())), int(uint16_t(sum)));
		CHECK_EQ(sprout::make_sum32(s.begin(), s.end()), sum); CHECK_EQ(sprout::make_sum32(t), sum); CHECK_EQ(sprout::make_sum32(s.c_str()), sum);
		CHECK_EQ(int(sprout::make_xor8(s.begin(), s.end())), int(x)); CHECK_EQ(int(sprout::make_xor8(t)), int(x)); CHECK_EQ(int(sprout::make_xor8(s.c_str())), int(x));
		CHECK_EQ(ref::hex(val(sprout::literals::checksum::operator"" _sha1(s.c_str(), s.size()))), ref::hex(ref::sha1(b))); CHECK_EQ(ref::hex(val(sprout::literals::checksum::operator"" _md5(s.c_str(), s.size()))), ref::hex(ref::md5(b)));
		CHECK_EQ(int(sprout::literals::checksum::operator"" _sum8(s.c_str(), s.size())), int(uint8_t(sum))); CHECK_EQ(int(sprout::literals::checksum::operator"" _sum16(s.c_str(), s.size())), int(uint16_t(sum))); CHECK_EQ(sprout::literals::checksum::operator"" _sum32(s.c_str(), s.size()), sum); CHECK_EQ(int(sprout::literals::checksum::operator"" _xor8(s.c_str(), s.size())), int(x));
	}
	PROP_INST(makers_char, 0.015, makers<char>) PROP_INST(makers_wchar, 0.015, makers<wchar_t>) PROP_INST(makers_char16, 0.015, makers<char16_t>) PROP_INST(makers_char32, 0.015, makers<char32_t>)
	template<class T> void iter(G& g) {
		size_t n = g.range(0, 6); std::vector<T> v(n); for (auto& x : v) x = T(g.draw(1ull << 40)); Bytes b = mem(v); g.note("bytes", ref::hex(b)); g.nontrivial(n > 1);
		auto f = sprout::make_bytes_iterator(v.begin()), l = sprout::make_bytes_iterator(v.end()); ptrdiff_t N = ptrdiff_t(b.size());
		CHECK_EQ(l - f, N); CHECK_EQ(sprout::distance(f, l), N); CHECK(Bytes(f, l) == b);
		ptrdiff_t i = ptrdiff_t(g.draw(uint64_t(N) + 1)), j = ptrdiff_t(g.draw(uint64_t(N) + 1)); auto p = f + i, q = f + j; g.note("i", i); g.note("j", j);
		CHECK_EQ(q - p, j - i); CHECK(p + (j - i) == q); CHECK(q - (j - i) == p); CHECK(l - (N - i) == p); CHECK_EQ(p == q, i == j); CHECK_EQ(p != q, i != j); CHECK_EQ(p < q, i < j); CHECK_EQ(p > q, i > j); CHECK_EQ(p <= q, i <= j); CHECK_EQ(p >= q, i >= j);
		if (i < N) { CHECK_EQ(int(*p), int(b[size_t(i)])); CHECK_EQ(int(f[i]), int(b[size_t(i)])); auto r = p; ++r; CHECK(r == p + 1); CHECK(p.next() == r); r = p; CHECK(r++ == p); CHECK(r - 1 == p); CHECK(r.prev() == p); --r; CHECK(r == p); }
		if (i > 0) { auto r = p; --r; CHECK(r == f + (i - 1)); CHECK_EQ(int(*r), int(b[size_t(i - 1)])); r = p; CHECK(r-- == p); CHECK(r + 1 == p); }
		auto r = f; r += j; CHECK(r == q); r -= j - i; CHECK(r == p); swap(r, q); CHECK(r == f + j); CHECK(q == p);
	}
	template<class T> void endian(G& g) {
		T t = T(g.integer<uint64_t>()); uint8_t v = uint8_t(g.draw(256)); size_t n = sizeof(T); g.note("t", uint64_t(t)); g.note("v", int(v)); g.nontrivial(t != 0); typedef typename std::make_unsigned<T>::type U;
		CHECK_EQ(sprout::big_endian_traits<T>::size(), n); CHECK_EQ(sprout::little_endian_traits<T>::size(), n); CHECK_EQ(sprout::endian_traits<T>::size(), n);
		for (size_t i = 0; i < n; ++i) {
			uint8_t lo = uint8_t(U(t) >> (8 * i)); CHECK_EQ(int(sprout::little_endian_traits<T>::get_byte(t, i)), int(lo)); CHECK_EQ(int(sprout::big_endian_traits<T>::get_byte(t, n - 1 - i)), int(lo)); CHECK_EQ(int(sprout::endian_traits<T>::get_byte(t, n - 1 - i)), int(lo));
			U want = U((uint64_t(U(t)) & ~(0xffull << (8 * i))) | (uint64_t(v) << (8 * i))); T a = t, b = t; sprout::little_endian_traits<T>::set_byte(a, i, v); sprout::big_endian_traits<T>::set_byte(b, n - 1 - i, v); CHECK_EQ(uint64_t(U(a)), uint64_t(want)); CHECK_EQ(uint64_t(U(b)), uint64_t(want));
		}
	}
	PROP_INST(endian_i8, 1, endian<signed char>) PROP_INST(endian_u16, 1, endian<uint16_t>) PROP_INST(endian_i16, 1, endian<int16_t>) PROP_INST(endian_i32, 1, endian<int32_t>) PROP_INST(endian_u32, 1, endian<uint32_t>) PROP_INST(endian_i64, 1, endian<int64_t>) PROP_INST(endian_u64, 1, endian<uint64_t>) PROP_INST(endian_c16, 1, endian<char16_t>)
	PROP_INST(iter_u8, 1, iter<uint8_t>) PROP_INST(iter_u16, 1, iter<uint16_t>) PROP_INST(iter_u32, 1, iter<uint32_t>) PROP_INST(iter_u64, 1, iter<uint64_t>)
}
