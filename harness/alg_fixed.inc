// included twice: X = sprout::fixed (FIT = 0) and X = sprout::fit (FIT = 1)
#define OUT(call, base, out) do { std::vector<E> g_ = vec(call), w_ = overlay(base, out, FIT); CHECK_MSG(same(g_, w_), "got " << pbt::show(g_) << " expected " << pbt::show(w_)); } while (0)
#define OUTC(call, c, out) do { auto r_ = (call); std::vector<E> g_ = vec(r_), w_ = overlay((c).v, out, FIT); CHECK_MSG(same(g_, w_), "got " << pbt::show(g_) << " expected " << pbt::show(w_)); (c).outside(r_, FIT, #call); } while (0)

	// iterator-pair forms into a result container
	template<class C, class K> void copies(G& g) {
		Box<C> c(g); std::vector<E> v = input(g); typename K::template R<E> s(v);
		auto b = s.begin(); auto e = s.end();
		ModIs p = {g.irange(1, 4), 0}; int val = g.irange(-2, 4), nw = g.irange(5, 9); g.note("mod", p.m); g.note("val", val);
		std::vector<E> o;
		OUTC(X::copy(b, e, c.c), c, v);
		o.clear(); std::copy_if(v.begin(), v.end(), std::back_inserter(o), p); OUTC(X::copy_if(b, e, c.c, p), c, o);
		o.clear(); std::remove_copy_if(v.begin(), v.end(), std::back_inserter(o), p); OUTC(X::remove_copy_if(b, e, c.c, p), c, o);
		o.clear(); std::remove_copy(v.begin(), v.end(), std::back_inserter(o), E(val)); OUTC(X::remove_copy(b, e, c.c, E(val)), c, o);
		o.clear(); std::replace_copy(v.begin(), v.end(), std::back_inserter(o), E(val), E(nw, 99)); OUTC(X::replace_copy(b, e, c.c, E(val), E(nw, 99)), c, o);
		o.clear(); std::replace_copy_if(v.begin(), v.end(), std::back_inserter(o), p, E(nw, 99)); OUTC(X::replace_copy_if(b, e, c.c, p, E(nw, 99)), c, o);
		o.clear(); for (E const& x : v) { if (!p(x)) break; o.push_back(x); } OUTC(X::copy_while(b, e, c.c, p), c, o);
		o.clear(); for (E const& x : v) { if (p(x)) break; o.push_back(x); } OUTC(X::copy_until(b, e, c.c, p), c, o);
		o.clear(); std::unique_copy(v.begin(), v.end(), std::back_inserter(o)); OUTC(X::unique_copy(b, e, c.c), c, o);
		EqMod q = {g.irange(1, 3)};
		o.clear(); std::unique_copy(v.begin(), v.end(), std::back_inserter(o), q); OUTC(X::unique_copy(b, e, c.c, q), c, o);
		o.clear(); for (E const& x : v) o.push_back(Twice()(x)); OUTC(X::transform(b, e, c.c, Twice()), c, o);
		std::vector<E> v2 = elems(fixed_ints(g, v.size(), -3, 9), 500); typename K::template R<E> s2(v2);
		o.clear(); for (size_t i = 0; i < v.size(); ++i) o.push_back(Sum()(v[i], v2[i])); OUTC(X::transform(b, e, s2.begin(), c.c, Sum()), c, o);
		int lo = g.irange(-2, 3), hi = lo + g.irange(0, 4);
		o.clear(); for (E const& x : v) o.push_back(x.key < lo ? E(lo, 71) : x.key > hi ? E(hi, 72) : x); OUTC(X::clamp_range_copy(b, e, c.c, E(lo, 71), E(hi, 72)), c, o);
		OUTC(X::clamp_range_copy(b, e, c.c, E(lo, 71), E(hi, 72), Less()), c, o);
		size_t n = g.draw(v.size() + 1);
		OUTC(X::copy_n(b, n, c.c), c, std::vector<E>(v.begin(), v.begin() + n));
		{	// partition_copy: the satisfying elements first, then the others
			std::vector<E> r = vec(X::partition_copy(b, e, c.c, p)); std::vector<E> t, f;
			for (E const& x : v) (p(x) ? t : f).push_back(x);
			if (v.size() <= c.v.size()) {
				CHECK_EQ(r.size(), FIT ? t.size() : c.v.size());
				CHECK(bag(std::vector<E>(r.begin(), r.begin() + t.size())) == bag(t)); if (!FIT) CHECK(bag(std::vector<E>(r.begin() + t.size(), r.begin() + v.size())) == bag(f));
			}
		}
	}
	template<class C, class K> void copies_fw(G& g) {
		Box<C> c(g); std::vector<E> v = input(g); typename K::template R<E> s(v);
		auto b = s.begin(); auto e = s.end();
		size_t m = g.draw(v.size() + 1); g.note("mid", m);
		std::vector<E> o(v); std::rotate(o.begin(), o.begin() + m, o.end());
		OUTC(X::rotate_copy(b, adv(b, m), e, c.c), c, o);
		if (!v.empty()) {
			size_t i = g.draw(v.size()), j = g.draw(v.size()); g.note("i", i); g.note("j", j);
			o = v; std::swap(o[i], o[j]);
			OUTC(X::swap_element_copy(b, e, c.c, adv(b, i), adv(b, j)), c, o);
		}
	}
	template<class C, class K> void copies_bi(G& g) {
		Box<C> c(g); std::vector<E> v = input(g); typename K::template R<E> s(v);
		auto b = s.begin(); auto e = s.end();
		ModIs p = {g.irange(1, 4), 0};
		std::vector<E> o(v.rbegin(), v.rend()); OUTC(X::reverse_copy(b, e, c.c), c, o);
		o.clear(); std::copy_if(v.begin(), v.end(), std::back_inserter(o), p); std::remove_copy_if(v.begin(), v.end(), std::back_inserter(o), p);
		if (FIT) o.resize(std::count_if(v.begin(), v.end(), p));
		OUTC(X::stable_partition_copy(b, e, c.c, p), c, o);
		if (v.size() <= c.v.size()) {
			std::vector<E> r = vec(X::copy_backward(b, e, c.c)), w(c.v);
			std::copy_backward(v.begin(), v.end(), w.end()); if (FIT) w.erase(w.begin(), w.end() - v.size());
			CHECK_MSG(same(r, w), "got " << pbt::show(r) << " expected " << pbt::show(w));
		}
	}
	template<class C, class K> void sets(G& g) {
		Box<C> c(g); std::vector<E> v = input(g), u = elems(g.vec(12), 300);
		bool alt = g.flag(); g.note("greater", alt);
		if (alt) { std::stable_sort(v.begin(), v.end(), Greater()); std::stable_sort(u.begin(), u.end(), Greater()); } else { std::stable_sort(v.begin(), v.end()); std::stable_sort(u.begin(), u.end()); }
		g.note("sorted a", v); g.note("sorted b", u);
		typename K::template R<E> s(v), t(u);
#define SET2(fn) do { std::vector<E> o; \
		if (alt) { std::fn(v.begin(), v.end(), u.begin(), u.end(), std::back_inserter(o), Greater()); OUTC(X::fn(s.begin(), s.end(), t.begin(), t.end(), c.c, Greater()), c, o); } \
		else { std::fn(v.begin(), v.end(), u.begin(), u.end(), std::back_inserter(o)); OUTC(X::fn(s.begin(), s.end(), t.begin(), t.end(), c.c), c, o); } } while (0)
		SET2(merge); SET2(set_union); SET2(set_intersection); SET2(set_difference); SET2(set_symmetric_difference);
#undef SET2
	}
	// whole-container forms
	template<class C> void whole(G& g) {
		Box<C> c(g); std::vector<E> const& v = c.v; g.nontrivial(v.size() > 1);
		ModIs p = {g.irange(1, 4), 0}; int val = g.irange(-2, 4); g.note("mod", p.m); g.note("val", val);
		std::vector<E> o;
		OUTC(X::reverse(c.c), c, std::vector<E>(v.rbegin(), v.rend()));
		o.clear(); std::remove_copy(v.begin(), v.end(), std::back_inserter(o), E(val)); OUTC(X::remove(c.c, E(val)), c, o);
		o.clear(); std::remove_copy_if(v.begin(), v.end(), std::back_inserter(o), p); OUTC(X::remove_if(c.c, p), c, o);
		o.clear(); std::unique_copy(v.begin(), v.end(), std::back_inserter(o)); OUTC(X::unique(c.c), c, o);
		EqMod q = {g.irange(1, 3)};
		o.clear(); std::unique_copy(v.begin(), v.end(), std::back_inserter(o), q); OUTC(X::unique(c.c, q), c, o);
		o = v; std::replace(o.begin(), o.end(), E(val), E(8, 88)); OUTC(X::replace(c.c, E(val), E(8, 88)), c, o);
		o = v; std::replace_if(o.begin(), o.end(), p, E(8, 88)); OUTC(X::replace_if(c.c, p, E(8, 88)), c, o);
		OUTC(X::fill(c.c, E(val, 5)), c, std::vector<E>(v.size(), E(val, 5)));
		size_t n = g.draw(v.size() + 1);
		OUTC(X::fill_n(c.c, n, E(val, 5)), c, std::vector<E>(n, E(val, 5)));
		int lo = g.irange(-2, 3), hi = lo + g.irange(0, 4);
		o.clear(); for (E const& x : v) o.push_back(x.key < lo ? E(lo, 71) : x.key > hi ? E(hi, 72) : x); OUTC(X::clamp_range(c.c, E(lo, 71), E(hi, 72)), c, o);
		size_t m = g.draw(v.size() + 1); g.note("mid", m);
		o = v; std::rotate(o.begin(), o.begin() + m, o.end()); OUTC(X::rotate(c.c, c.it(m)), c, o);
		if (!v.empty()) { size_t i = g.draw(v.size()), j = g.draw(v.size()); o = v; std::swap(o[i], o[j]); OUTC(X::swap_element(c.c, c.it(i), c.it(j)), c, o); }
		o.clear(); std::copy_if(v.begin(), v.end(), std::back_inserter(o), p); std::remove_copy_if(v.begin(), v.end(), std::back_inserter(o), p); if (FIT) o.resize(std::count_if(v.begin(), v.end(), p)); OUTC(X::stable_partition(c.c, p), c, o);
		{
			std::vector<E> r = vec(X::partition(c.c, p)), t, f; for (E const& x : v) (p(x) ? t : f).push_back(x);
			CHECK_EQ(r.size(), FIT ? t.size() : v.size()); CHECK(bag(std::vector<E>(r.begin(), r.begin() + t.size())) == bag(t)); if (!FIT) CHECK(bag(std::vector<E>(r.begin() + t.size(), r.end())) == bag(f));
		}
		// sequences from generators: each value comes with the generator of the rest
		int a = g.irange(-5, 5), d = g.irange(1, 3);
		o.clear(); for (size_t i = 0; i < v.size(); ++i) o.push_back(E(a + d * int(i), int(i)));
		OUTC(X::generate(c.c, Count(a, d, 0)), c, o);
		OUTC(X::unfold(c.c, Unfolder(d), std::make_pair(a, 0)), c, o);
		OUTC(X::generate_n(c.c, n, Count(a, d, 0)), c, std::vector<E>(o.begin(), o.begin() + n));
		OUTC(X::unfold_n(c.c, n, Unfolder(d), std::make_pair(a, 0)), c, std::vector<E>(o.begin(), o.begin() + n));
		o.clear(); for (size_t i = 0; i < v.size(); ++i) o.push_back(i == 0 ? E(a, 1) : Step()(o[i - 1]));
		OUTC(X::recurrence(c.c, Step(), E(a, 1)), c, o);
		OUTC(X::recurrence_n(c.c, n, Step(), E(a, 1)), c, std::vector<E>(o.begin(), o.begin() + n));
		o.clear(); for (size_t i = 0; i < v.size(); ++i) o.push_back(i == 0 ? E(a, 1) : i == 1 ? E(d, 2) : Sum()(o[i - 2], o[i - 1]));
		if (v.size() >= 2) OUTC(X::recurrence(c.c, Sum(), E(a, 1), E(d, 2)), c, o);	// fewer places than initial values: unspecified
		if (n >= 2) OUTC(X::recurrence_n(c.c, n, Sum(), E(a, 1), E(d, 2)), c, std::vector<E>(o.begin(), o.begin() + n));
	}
	template<class C, class Cmp> void order_with(G& g, Cmp cmp) {
		Box<C> c(g); std::vector<E> const& v = c.v; g.nontrivial(v.size() > 1);
		std::vector<E> o, r;
		auto bg = bag(v);
		o = v; std::stable_sort(o.begin(), o.end(), cmp); OUTC(X::stable_sort(c.c, cmp), c, o);
		r = vec(X::sort(c.c, cmp)); CHECK(std::is_sorted(r.begin(), r.end(), cmp)); CHECK(bag(r) == bg);
		r = vec(X::make_heap(c.c, cmp)); CHECK(std::is_heap(r.begin(), r.end(), cmp)); CHECK(bag(r) == bg);
		size_t m = g.draw(v.size() + 1); g.note("mid", m);
		o = v; std::stable_sort(o.begin(), o.end(), cmp);
		auto equiv = [&](E const& a, E const& b) { return !cmp(a, b) && !cmp(b, a); };
		// fit:: keeps what the call arranged: [first, middle), [first, nth], and the heap without the popped element
		auto part = [&](std::vector<E> const& x, size_t n) { CHECK_EQ(x.size(), FIT ? n : v.size()); if (!FIT) CHECK(bag(x) == bg); else { auto bx = bag(x); CHECK(std::includes(bg.begin(), bg.end(), bx.begin(), bx.end())); } };
		r = vec(X::partial_sort(c.c, c.it(m), cmp)); part(r, m); CHECK(std::is_sorted(r.begin(), r.begin() + m, cmp));
		for (size_t i = 0; i < m; ++i) CHECK(equiv(r[i], o[i]));
		r = vec(X::make_partial_heap(c.c, c.it(m), cmp)); part(r, m); CHECK(std::is_heap(r.begin(), r.begin() + m, cmp));
		std::sort_heap(r.begin(), r.begin() + m, cmp); for (size_t i = 0; i < m; ++i) CHECK(equiv(r[i], o[i]));
		if (m < v.size()) {
			r = vec(X::nth_element(c.c, c.it(m), cmp)); part(r, m + 1); CHECK(equiv(r[m], o[m]));
			for (size_t i = 0; i < m; ++i) CHECK(!cmp(r[m], r[i]));
			for (size_t i = m; i < r.size(); ++i) CHECK(!cmp(r[i], r[m]));
		}
		if (!v.empty()) {
			std::vector<E> h(v); std::make_heap(h.begin(), h.end() - 1, cmp); Box<C> b(c, h);
			r = vec(X::push_heap(b.c, cmp)); CHECK(std::is_heap(r.begin(), r.end(), cmp)); CHECK(bag(r) == bg);
			h = v; std::make_heap(h.begin(), h.end(), cmp); Box<C> b2(c, h);
			r = vec(X::pop_heap(b2.c, cmp)); part(r, v.size() - 1); CHECK(std::is_heap(r.begin(), r.begin() + (v.size() - 1), cmp)); if (!FIT) CHECK(equiv(r.back(), o.back()));
			r = vec(X::sort_heap(b2.c, cmp)); CHECK(std::is_sorted(r.begin(), r.end(), cmp)); CHECK(bag(r) == bg);
		}
		{ std::vector<E> h(v); std::stable_sort(h.begin(), h.begin() + m, cmp); std::stable_sort(h.begin() + m, h.end(), cmp); Box<C> b(c, h); o = h; std::inplace_merge(o.begin(), o.begin() + m, o.end(), cmp); OUTC(X::inplace_merge(b.c, b.it(m), cmp), b, o); }
		{ o = v; bool m_ = std::next_permutation(o.begin(), o.end(), cmp); auto pr_ = X::next_permutation(c.c, cmp); CHECK_EQ(keys(vec(pr_.first)), keys(o)); CHECK_EQ(pr_.second, m_); }
		{ o = v; bool m_ = std::prev_permutation(o.begin(), o.end(), cmp); auto pr_ = X::prev_permutation(c.c, cmp); CHECK_EQ(keys(vec(pr_.first)), keys(o)); CHECK_EQ(pr_.second, m_); }
	}
	template<class C> void order(G& g) { order_with<C>(g, Less()); }
	template<class C> void order_gt(G& g) { order_with<C>(g, Greater()); }
	template<class C> void order_plain(G& g) {
		Box<C> c(g); std::vector<E> const& v = c.v; g.nontrivial(v.size() > 1); std::vector<E> o(v), r; auto bg = bag(v);
		std::stable_sort(o.begin(), o.end()); OUTC(X::stable_sort(c.c), c, o);
		r = vec(X::sort(c.c)); CHECK(std::is_sorted(r.begin(), r.end())); CHECK(bag(r) == bg);
		r = vec(X::make_heap(c.c)); CHECK(std::is_heap(r.begin(), r.end())); CHECK(bag(r) == bg);
		{ o = v; bool m_ = std::next_permutation(o.begin(), o.end()); auto pr_ = X::next_permutation(c.c); CHECK_EQ(keys(vec(pr_.first)), keys(o)); CHECK_EQ(pr_.second, m_); }
		{ o = v; bool m_ = std::prev_permutation(o.begin(), o.end()); auto pr_ = X::prev_permutation(c.c); CHECK_EQ(keys(vec(pr_.first)), keys(o)); CHECK_EQ(pr_.second, m_); }
		sprout::random::minstd_rand0 const eng(1 + unsigned(g.draw(100000)));
		r = vec(X::shuffle(c.c, eng)); CHECK(bag(r) == bg);
		r = vec(X::random_swap(c.c, eng)); CHECK(bag(r) == bg);
		size_t diff = 0; for (size_t i = 0; i < v.size(); ++i) diff += !r[i].same(v[i]);
		CHECK(diff == 0 || diff == 2);
		if (v.size() <= 3) {
			r = vec(X::bogo_sort(c.c, eng)); CHECK(std::is_sorted(r.begin(), r.end())); CHECK(bag(r) == bg);
			r = vec(X::bozo_sort(c.c, eng)); CHECK(std::is_sorted(r.begin(), r.end())); CHECK(bag(r) == bg);
		}
	}
#undef OUT
#undef OUTC
