// I01: iterator adaptors visit the sequence they are defined to visit, and obey the laws of their category
#include "pbt.hpp"
#include "iters.hpp"
#include "laws.hpp"
#include <algorithm>
#include <sprout/iterator.hpp>
#include <sprout/iterator/clamp_iterator.hpp>
#include <sprout/functional.hpp>
using namespace pbt;
typedef std::vector<int> V;

static V ints(G& g, size_t max = 9) { size_t n = g.size(max); V v; int span = g.flag() ? 3 : 9; for (size_t i = 0; i < n; ++i) v.push_back(g.irange(-1, span)); if (n > 1) g.nontrivial(); return v; }
static V sorted(G& g) { V v = ints(g); std::sort(v.begin(), v.end()); return v; }
struct Mod { int m, r; bool operator()(int k) const { return ((k % m) + m) % m == r; } };
struct Twice { int operator()(int x) const { return 2 * x + 1; } };
struct Mix { int operator()(int x, int y) const { return 10 * x + y; } };
#define ALL(fn, w) PROP_INST(fn##_ra, w, fn<ck::KRa>) PROP_INST(fn##_ptr, w, fn<ck::KPtr>) PROP_INST(fn##_bi, w, fn<ck::KBi>) PROP_INST(fn##_list, w, fn<ck::KList>) PROP_INST(fn##_fwd, w, fn<ck::KFw>)
#define BIDI(fn, w) PROP_INST(fn##_ra, w, fn<ck::KRa>) PROP_INST(fn##_ptr, w, fn<ck::KPtr>) PROP_INST(fn##_bi, w, fn<ck::KBi>) PROP_INST(fn##_list, w, fn<ck::KList>)
#define RA(fn, w) PROP_INST(fn##_ra, w, fn<ck::KRa>) PROP_INST(fn##_ptr, w, fn<ck::KPtr>)
template<class K> using R = typename K::template R<int>;

template<class K> static void transform1(G& g) { R<K> r(ints(g)); V e; for (int x : r.get()) e.push_back(2 * x + 1);
	laws(sprout::make_transform_iterator(r.begin(), Twice()), sprout::make_transform_iterator(r.end(), Twice()), e); CHECK(sprout::make_transform_iterator(r.begin(), Twice()).base() == r.begin()); }
ALL(transform1, 0.3)
template<class K> static void transform2(G& g) { V a = ints(g), b = a; for (auto& x : b) x = g.irange(0, 9); R<K> r(a), s(b); V e; for (size_t i = 0; i < a.size(); ++i) e.push_back(10 * a[i] + b[i]);
	laws(sprout::make_transform_iterator(r.begin(), s.begin(), Mix()), sprout::make_transform_iterator(r.end(), s.end(), Mix()), e); }
ALL(transform2, 0.3)
template<class K> static void filter(G& g) { R<K> r(ints(g)); Mod p{g.irange(1, 3), 0}; p.r = g.irange(0, p.m); V e; for (int x : r.get()) if (p(x)) e.push_back(x); g.note("data", r.get()); g.note("mod", p.m); g.note("rem", p.r);
	laws(sprout::make_filter_iterator(p, r.begin(), r.end()), sprout::make_filter_iterator(p, r.end(), r.end()), e); }
ALL(filter, 0.3)
template<class K> static void remove_(G& g) { R<K> r(ints(g)); int x = g.irange(-1, 9); V e; for (int y : r.get()) if (y != x) e.push_back(y);
	laws(sprout::make_remove_iterator(x, r.begin(), r.end()), sprout::make_remove_iterator(x, r.end(), r.end()), e);
	Mod p{g.irange(1, 3), 0}; e.clear(); for (int y : r.get()) if (!p(y)) e.push_back(y);
	laws(sprout::make_remove_if_iterator(p, r.begin(), r.end()), sprout::make_remove_if_iterator(p, r.end(), r.end()), e); }
ALL(remove_, 0.3)
template<class K> static void replace_(G& g) { R<K> r(ints(g)); int x = g.irange(-1, 9), y = g.irange(-9, 9); V e = r.get(); std::replace(e.begin(), e.end(), x, y);
	laws(sprout::make_replace_iterator(r.begin(), x, y), sprout::make_replace_iterator(r.end(), x, y), e);
	Mod p{g.irange(1, 3), 0}; e = r.get(); std::replace_if(e.begin(), e.end(), p, y);
	laws(sprout::make_replace_if_iterator(r.begin(), p, y), sprout::make_replace_if_iterator(r.end(), p, y), e); }
ALL(replace_, 0.3)
template<class K> static void unique_(G& g) { R<K> r(ints(g)); V e = r.get(); e.erase(std::unique(e.begin(), e.end()), e.end()); g.note("data", r.get());
	laws(sprout::make_unique_iterator(r.begin(), r.end()), sprout::make_unique_iterator(r.end(), r.end()), e); }
ALL(unique_, 0.3)
template<class K> static void clamp_(G& g) { R<K> r(ints(g)); int lo = g.irange(-2, 5), hi = g.irange(lo, 9); V e; for (int x : r.get()) e.push_back(x < lo ? lo : hi < x ? hi : x);
	laws(sprout::make_clamp_iterator(r.begin(), lo, hi), sprout::make_clamp_iterator(r.end(), lo, hi), e);
	e.clear(); for (int x : r.get()) e.push_back(x > hi ? hi : lo > x ? lo : x); laws(sprout::make_clamp_iterator(r.begin(), hi, lo, std::greater<int>()), sprout::make_clamp_iterator(r.end(), hi, lo, std::greater<int>()), e); }
ALL(clamp_, 0.3)
template<class K> static void alternate(G& g) { V a = ints(g), b = a; for (auto& x : b) x = g.irange(10, 19); R<K> r(a), s(b); V e; for (size_t i = 0; i < a.size(); ++i) { e.push_back(a[i]); e.push_back(b[i]); }
	laws(sprout::make_alternate_iterator(r.begin(), s.begin()), sprout::make_alternate_iterator(r.end(), s.end()), e); }
ALL(alternate, 0.3)
template<class K> static void joint(G& g) { V a = ints(g), b = ints(g); R<K> r(a), s(b); V e = a; e.insert(e.end(), b.begin(), b.end()); if (!a.empty() && !b.empty()) g.nontrivial();
	laws(sprout::make_joint_iterator(r.begin(), r.end(), s.begin(), s.begin()), sprout::make_joint_iterator(r.end(), r.end(), s.begin(), s.end()), e); }
ALL(joint, 0.4)
template<class K> static void merge_(G& g) { V a = sorted(g), b = sorted(g); R<K> r(a), s(b); V e; std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(e)); g.note("a", a); g.note("b", b);
	laws(sprout::make_merge_iterator(r.begin(), r.end(), s.begin(), s.end()), sprout::make_merge_iterator(r.end(), r.end(), s.end(), s.end()), e);
	std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); std::reverse(e.begin(), e.end()); R<K> t(a), u(b); std::greater<int> c;
	laws(sprout::make_merge_iterator(t.begin(), t.end(), u.begin(), u.end(), c), sprout::make_merge_iterator(t.end(), t.end(), u.end(), u.end(), c), e); }
ALL(merge_, 0.3)
#define SETIT(name) template<class K> static void name(G& g) { V a = sorted(g), b = sorted(g); R<K> r(a), s(b); V e; std::name(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(e)); g.note("a", a); g.note("b", b); \
	laws(sprout::make_##name##_iterator(r.begin(), r.end(), s.begin(), s.end()), sprout::make_##name##_iterator(r.end(), r.end(), s.end(), s.end()), e); \
	std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); std::greater<int> c; R<K> t(a), u(b); e.clear(); std::name(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(e), c); \
	laws(sprout::make_##name##_iterator(t.begin(), t.end(), u.begin(), u.end(), c), sprout::make_##name##_iterator(t.end(), t.end(), u.end(), u.end(), c), e); } \
	ALL(name, 0.3)
SETIT(set_union) SETIT(set_intersection) SETIT(set_difference) SETIT(set_symmetric_difference)
template<class K> static void reverse_(G& g) { R<K> r(ints(g)); V e = r.get(); std::reverse(e.begin(), e.end()); laws(sprout::make_reverse_iterator(r.end()), sprout::make_reverse_iterator(r.begin()), e); CHECK(sprout::make_reverse_iterator(r.end()).base() == r.end());
	laws(sprout::make_reverse_iterator(sprout::make_reverse_iterator(r.begin())), sprout::make_reverse_iterator(sprout::make_reverse_iterator(r.end())), r.get()); }
BIDI(reverse_, 0.3)
template<class K> static void move_(G& g) { R<K> r(ints(g)); V e = r.get(); laws(sprout::make_move_iterator(r.mbegin()), sprout::make_move_iterator(r.mend()), e); }
ALL(move_, 0.2)
template<class K> static void indexed(G& g) { R<K> r(ints(g)); long i0 = g.irange(-3, 5); auto b = sprout::make_indexed_iterator(r.begin(), i0); V e = r.get(); size_t k = 0; laws(b, sprout::make_indexed_iterator(r.end()), e);
	for (auto i = b; i != sprout::make_indexed_iterator(r.end()); ++i, ++k) { CHECK_EQ(long(i.index()), i0 + long(k)); CHECK_EQ(long(sprout::next(b, long(k)).index()), i0 + long(k)); auto j = i; CHECK_EQ(long((j++).index()), i0 + long(k)); CHECK_EQ(long(j.index()), i0 + long(k) + 1); CHECK_EQ(long(sprout::next(i).index()), i0 + long(k) + 1); } }
ALL(indexed, 0.2)
template<class K> static void indexed_back(G& g) { R<K> r(ints(g)); V e = r.get(); auto i = sprout::make_indexed_iterator(r.begin(), 4); for (size_t k = 0; k < e.size(); ++k) { ++i; auto j = i; --j; CHECK_EQ(long(j.index()), 4 + long(k)); CHECK_EQ(int(*j), e[k]); auto q = i; CHECK_EQ(long((q--).index()), 5 + long(k)); CHECK_EQ(long(q.index()), 4 + long(k)); CHECK_EQ(long(sprout::prev(i).index()), 4 + long(k)); } }
BIDI(indexed_back, 0.2)
template<class K> static void indexed_random(G& g) { R<K> r(ints(g)); long n = long(r.get().size()); auto b = sprout::make_indexed_iterator(r.begin(), 4); for (long i = 0; i <= n; ++i) { auto a = b + i; CHECK_EQ(long(a.index()), 4 + i); for (long j = 0; j <= n; ++j) { CHECK_EQ(long((a + (j - i)).index()), 4 + j); CHECK_EQ(long((a - (i - j)).index()), 4 + j); auto c = a; c += j - i; CHECK_EQ(long(c.index()), 4 + j); c -= j - i; CHECK_EQ(long(c.index()), 4 + i); } } }
RA(indexed_random, 0.2)
template<class K> static void valued(G& g) { R<K> r(ints(g)); int v = g.irange(0, 9); V e = r.get(); if (!e.empty()) { auto i = r.begin(); sprout::advance(i); CHECK(i == sprout::next(r.begin())); } CHECK_EQ(int(sprout::next(sprout::make_valued_iterator(r.begin(), v), long(e.size())).get()), v); laws(sprout::make_valued_iterator(r.begin(), v), sprout::make_valued_iterator(r.end(), v), e); CHECK(sprout::make_valued_iterator(r.begin(), v).base() == r.begin()); }
ALL(valued, 0.2)
template<class K> static void while_(G& g) { R<K> r(ints(g)); Mod p{g.irange(1, 3), 0}; p.r = g.irange(0, 1); V e; for (int x : r.get()) { if (!p(x)) break; e.push_back(x); } g.note("data", r.get()); g.note("mod", p.m); g.note("rem", p.r);
	auto b = sprout::make_while_iterator(p, r.begin(), r.end()), l = sprout::make_while_iterator(p, r.end(), r.end()); size_t k = 0; V got; for (auto i = b; i != l && k < 20; ++i, ++k) got.push_back(*i); CHECK(got == e); got.clear(); k = 0; for (auto i = b; i != l && k < 20; i = sprout::next(i), ++k) got.push_back(*i); CHECK(got == e); CHECK_EQ(size_t(sprout::distance(b, l)), e.size()); }
ALL(while_, 0.3)
template<class K> static void step_(G& g) { R<K> r(ints(g)); long w = g.irange(1, 4); V e; V d = r.get(); for (size_t i = 0; i < d.size(); i += size_t(w)) e.push_back(d[i]); g.note("data", d); g.note("width", int(w));
	typedef decltype(r.begin()) B; sprout::step_iterator<B> b(r.begin(), w, r.end()), l(r.end(), w, r.end()); forward_laws(b, l, e); laws(b, b + long(d.size()), e); }
RA(step_, 0.5)
PROP(counting, 0.5) { int a = g.irange(-20, 20), n = g.irange(0, 9); V e; for (int i = 0; i < n; ++i) e.push_back(a + i); if (n > 1) g.nontrivial(); laws(sprout::make_counting_iterator(a), sprout::make_counting_iterator(a + n), e);
	typedef sprout::counting_iterator<unsigned char> C; std::vector<unsigned char> f; unsigned char x = (unsigned char)g.draw(240); for (int i = 0; i < n; ++i) f.push_back((unsigned char)(x + i)); laws(C(x), C((unsigned char)(x + n)), f); }
PROP(value_, 0.5) { int v = g.irange(-9, 9); size_t n = g.size(9); if (n > 1) g.nontrivial(); typedef sprout::value_iterator<int> I; laws(I(v, long(n)), I(v, 0), V(n, v)); }
template<class T> static void ptr_index(G& g) { V d = ints(g); std::vector<T> a(d.begin(), d.end()); T* p = a.data(); long n = long(a.size());
	laws(sprout::make_ptr_index_iterator(p), sprout::make_ptr_index_iterator(p, n), a); laws(sprout::ptr_index(p), sprout::ptr_index(p, n), a);
	T const* c = p; laws(sprout::ptr_index(c), sprout::ptr_index(c, n), a); CHECK(sprout::make_ptr_index_iterator(p, n).base() == p); CHECK_EQ(long(sprout::make_ptr_index_iterator(p, n).index()), n); }
PROP_INST(ptr_index_int, 0.3, ptr_index<int>) PROP_INST(ptr_index_char, 0.3, ptr_index<char>)
PROP(index_iter, 0.5) { V d = ints(g); typedef sprout::index_iterator<V&> I; long n = long(d.size()); laws(I(d, 0), I(d, n), d); typedef sprout::index_iterator<V const&> C; laws(C(d, 0), C(d, n), d); if (n) { *I(d, 0) = 77; CHECK_EQ(d[0], 77); I(d, 0)[n - 1] = 78; CHECK_EQ(d.back(), 78); } }
PROP(case_iter, 0.5) { std::string s = g.str(9, std::string("aAzZ09_[`{@ \xe9")); std::vector<char> lo, up; for (char c : s) { lo.push_back(c >= 'A' && c <= 'Z' ? char(c + 32) : c); up.push_back(c >= 'a' && c <= 'z' ? char(c - 32) : c); } if (s.size() > 1) g.nontrivial();
	char const* p = s.data(); laws(sprout::make_to_lower_iterator(p), sprout::make_to_lower_iterator(p + s.size()), lo); laws(sprout::make_to_upper_iterator(p), sprout::make_to_upper_iterator(p + s.size()), up); }
PROP(size_enum, 0.5) { size_t n = g.size(6); std::vector<std::string> w; for (size_t i = 0; i < n; ++i) w.push_back(std::string(g.draw(4), 'x')); std::vector<long> e; for (auto& x : w) e.push_back(long(x.size())); if (n > 1) g.nontrivial();
	laws(sprout::make_size_enum_iterator(w.data()), sprout::make_size_enum_iterator(w.data() + n), e); }
// writing through
PROP(write_through, 0.5) { V a = ints(g), b = ints(g); V e = a; e.insert(e.end(), b.begin(), b.end()); int x = g.irange(50, 60);
	if (!e.empty()) { size_t k = g.draw(e.size()); auto i = sprout::make_joint_iterator(a.data(), a.data() + a.size(), b.data(), b.data()); i += long(k); *i = x; e[k] = x; V f = a; f.insert(f.end(), b.begin(), b.end()); CHECK(f == e); }
	if (!a.empty()) { size_t k = g.draw(a.size()); *(sprout::make_reverse_iterator(a.data() + a.size()) + long(k)) = x; CHECK_EQ(a[a.size() - 1 - k], x); } }
// insert iterators
PROP(inserters, 0.5) { V d = ints(g), t = ints(g); std::list<int> l(t.begin(), t.end()), m = l; size_t k = g.draw(t.size() + 1);
	{ auto o = sprout::back_inserter(l); for (int x : d) { *o = x; ++o; } for (int x : d) *o++ = x; } for (int q = 0; q < 2; ++q) m.insert(m.end(), d.begin(), d.end()); CHECK(l == m);
	{ auto o = sprout::front_inserter(l); for (int x : d) *o++ = x; } for (int x : d) m.push_front(x); CHECK(l == m);
	{ auto o = sprout::inserter(l, std::next(l.begin(), long(k))); for (int x : d) *o++ = x; } { auto o = std::inserter(m, std::next(m.begin(), long(k))); for (int x : d) *o++ = x; } CHECK(l == m); }
