// L02: forward_clist - an intrusive singly linked list - against a vector of item numbers
#include <sprout/config.hpp>
#include <vector>
#include <string>
#include <algorithm>
#include <sprout/forward_clist.hpp>
#include <sprout/iterator/operation.hpp>
#include "pbt.hpp"

template<class T> struct val;
template<> struct val<int> { static int make(int k) { return k * 7 + 1; } };
template<> struct val<std::string> { static std::string make(int k) { return "item" + std::to_string(k); } };

template<class T> struct Sys {
	typedef sprout::forward_clist<T> L;
	typedef typename L::item I;
	enum { N = 9 };
	std::vector<I> it;
	L l[2];
	std::vector<int> m[2];
	int where[N];
	Sys() { it.reserve(N); for (int i = 0; i < N; ++i) { it.push_back(I(val<T>::make(i))); where[i] = -1; } }
	std::vector<int> free_items() { std::vector<int> r; for (int i = 0; i < N; ++i) if (where[i] < 0) r.push_back(i); return r; }
	typename L::iterator at(int k, int pos) { // pos 0 = before_begin
		typename L::iterator p = l[k].before_begin();
		for (int i = 0; i < pos; ++i) ++p;
		return p;
	}
	void refresh() { for (int i = 0; i < N; ++i) where[i] = -1; for (int k = 0; k < 2; ++k) for (int x : m[k]) where[x] = k; }
	void check() {
		refresh();
		for (int k = 0; k < 2; ++k) {
			L const& c = l[k];
			CHECK_EQ(c.empty(), m[k].empty());
			std::vector<T const*> got, cgot, want;
			int guard = 0;
			for (typename L::iterator p = l[k].begin(); p != l[k].end() && guard <= N; ++p, ++guard) got.push_back(&*p);
			guard = 0;
			for (typename L::const_iterator p = c.begin(); p != c.end() && guard <= N; p++, ++guard) cgot.push_back(p.operator->());
			for (int x : m[k]) want.push_back(&it[x].get());
			CHECK_EQ(got.size(), want.size()); CHECK(got == want); CHECK(cgot == want);
			guard = 0;
			std::size_t cnt = 0;
			for (typename L::const_iterator p = c.cbegin(); p != c.cend() && guard <= N; p = sprout::next(p), ++guard) ++cnt;
			CHECK_EQ(cnt, want.size());
			if (!m[k].empty()) { CHECK(&l[k].front() == want[0]); CHECK(&c.front() == want[0]); }
			typename L::const_iterator bb = c.before_begin(), cbb = c.cbefore_begin();
			CHECK((++bb) == c.begin()); CHECK((++cbb) == c.cbegin());
			CHECK(l[k].begin() == c.begin());
		}
		for (int i = 0; i < N; ++i) {
			bool has_next = false;
			for (int k = 0; k < 2; ++k) for (std::size_t j = 0; j + 1 < m[k].size(); ++j) if (m[k][j] == i) has_next = true;
			CHECK_EQ(it[i].is_linked(), has_next);
			CHECK(it[i].get() == val<T>::make(i));
		}
	}
};

template<class T> void clist_model(pbt::G& g) {
	Sys<T> s;
	typedef typename Sys<T>::I I;
	int steps = 1 + (int)g.size(30);
	g.note("steps", steps);
	std::string trace;
	int maxlen = 0;
	for (int st = 0; st < steps; ++st) {
		int k = (int)g.draw(2);
		std::vector<int>& m = s.m[k];
		std::vector<int> fr = s.free_items();
		int op = (int)g.draw(12);
		// a run of free items, contiguous in memory order (iterators over items)
		int a = 0, b = 0;
		if (!fr.empty()) { a = fr[g.draw(fr.size())]; b = a; while (b < Sys<T>::N && s.where[b] < 0 && !g.chance(1, 3)) ++b; }
		int pos = (int)g.draw(m.size() + 1);
		trace += std::to_string(op) + (k ? "'" : "") + "@" + std::to_string(pos) + "," + std::to_string(a) + "-" + std::to_string(b) + " ";
		switch (op) {
		case 0: case 1: if (!fr.empty()) { s.l[k].push_front(s.it[a]); m.insert(m.begin(), a); } break;
		case 2: if (!fr.empty()) { s.l[k].push_front(s.it.begin() + a, s.it.begin() + b); for (int i = a; i < b; ++i) m.insert(m.begin() + (i - a), i); } break;
		case 3: if (!m.empty()) { s.l[k].pop_front(); m.erase(m.begin()); } break;
		case 4: case 5: if (!fr.empty()) {
			typename Sys<T>::L::iterator r = s.l[k].insert_after(s.at(k, pos), s.it[a]);
			CHECK(&*r == &s.it[a].get());
			m.insert(m.begin() + pos, a);
		} break;
		case 6: if (!fr.empty()) {
			typename Sys<T>::L::iterator p = s.at(k, pos);
			typename Sys<T>::L::iterator r = s.l[k].insert_after(p, s.it.begin() + a, s.it.begin() + b);
			if (b > a) CHECK(&*r == &s.it[b - 1].get()); else CHECK(r == p);
			for (int i = a; i < b; ++i) m.insert(m.begin() + pos + (i - a), i);
		} break;
		case 7: if (pos < (int)m.size()) {
			typename Sys<T>::L::iterator r = s.l[k].erase_after(s.at(k, pos));
			m.erase(m.begin() + pos);
			if (pos < (int)m.size()) CHECK(&*r == &s.it[m[pos]].get()); else CHECK(r == s.l[k].end());
		} break;
		case 8: {
			int q = pos + (int)g.draw(m.size() - pos + 1); // erase (pos, q] i.e. items pos..q-1; last = q-th item
			typename Sys<T>::L::iterator r = s.l[k].erase_after(s.at(k, pos), s.at(k, q + 1 <= (int)m.size() ? q + 1 : 0 ) == s.l[k].before_begin() ? typename Sys<T>::L::iterator() : s.at(k, q + 1));
			m.erase(m.begin() + pos, m.begin() + q);
			if (pos < (int)m.size()) CHECK(&*r == &s.it[m[pos]].get()); else CHECK(r == s.l[k].end());
		} break;
		case 9: s.l[k].swap(s.l[1 - k]); s.m[k].swap(s.m[1 - k]); break;
		case 10: {
			int x = (int)g.draw(Sys<T>::N);
			s.l[k].unlink(s.it[x]); // a no-op when x is not in this list
			std::vector<int>::iterator f = std::find(m.begin(), m.end(), x);
			if (f != m.end()) m.erase(f);
		} break;
		default: if (g.chance(1, 3)) { s.l[k].clear(); m.clear(); } else {
			if (!fr.empty() && g.flag()) { s.l[k].assign(s.it.begin() + a, s.it.begin() + b); m.clear(); for (int i = a; i < b; ++i) m.push_back(i); }
			else { int x = (int)g.draw(Sys<T>::N), y = x + (int)g.draw(Sys<T>::N - x + 1); s.l[k].unlink(s.it.begin() + x, s.it.begin() + y); for (int i = x; i < y; ++i) { std::vector<int>::iterator f = std::find(m.begin(), m.end(), i); if (f != m.end()) m.erase(f); } }
		} break;
		}
		maxlen = std::max(maxlen, (int)m.size());
		s.check();
	}
	g.note("trace", trace);
	g.nontrivial(maxlen >= 2);
}
PROP_INST(clist_int, 3, clist_model<int>);
PROP_INST(clist_string, 2, clist_model<std::string>);

template<class T> void clist_ctor(pbt::G& g) {
	typedef sprout::forward_clist<T> L;
	typedef typename L::item I;
	std::vector<I> it;
	int n = (int)g.draw(8);
	it.reserve(n);
	for (int i = 0; i < n; ++i) it.push_back(I(val<T>::make(i)));
	g.note("n", n); g.nontrivial(n > 1);
	L l(it.begin(), it.end());
	L e;
	CHECK(e.empty()); CHECK(e.begin() == e.end());
	CHECK_EQ(l.empty(), n == 0);
	// moving a list moves its items
	L m(sprout::move(l));
	int i = 0;
	for (typename L::iterator p = m.begin(); p != m.end(); ++p, ++i) { CHECK(i < n); CHECK(&*p == &it[i].get()); CHECK(p->size() == val<T>::make(i).size()); }
	CHECK_EQ(i, n);
}
template<class T> void clist_ctor_int(pbt::G& g) {
	typedef sprout::forward_clist<int> L;
	typedef typename L::item I;
	std::vector<I> it;
	int n = (int)g.draw(8);
	it.reserve(n);
	for (int i = 0; i < n; ++i) it.push_back(I(i));
	g.note("n", n); g.nontrivial(n > 1);
	L l(it.begin(), it.end());
	int i = 0;
	for (int& x : l) { CHECK_EQ(x, i); x += 100; ++i; }
	CHECK_EQ(i, n);
	for (i = 0; i < n; ++i) CHECK_EQ(*it[i], i + 100);
}
PROP_INST(clist_construct, 1, clist_ctor<std::string>);
PROP_INST(clist_construct_int, 1, clist_ctor_int<int>);
