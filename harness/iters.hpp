// Checked iterators of every category over a bounded sequence, and element types with identity.
#ifndef VERIF_ITERS_HPP
#define VERIF_ITERS_HPP
#include "pbt.hpp"
#include <iterator>
#include <list>
#include <forward_list>
#include <vector>
#include <cstddef>

namespace ck {
	// An element with a key that compares and an identity that does not.
	struct E {
		int key; int id;
		constexpr E() : key(0), id(-1) {}
		constexpr E(int k) : key(k), id(-1) {}
		constexpr E(int k, int i) : key(k), id(i) {}
		friend constexpr bool operator==(E const& a, E const& b) { return a.key == b.key; }
		friend constexpr bool operator!=(E const& a, E const& b) { return a.key != b.key; }
		friend constexpr bool operator<(E const& a, E const& b) { return a.key < b.key; }
		friend constexpr bool operator>(E const& a, E const& b) { return a.key > b.key; }
		friend constexpr bool operator<=(E const& a, E const& b) { return a.key <= b.key; }
		friend constexpr bool operator>=(E const& a, E const& b) { return a.key >= b.key; }
		constexpr bool same(E const& o) const { return key == o.key && id == o.id; }
	};
	inline std::ostream& operator<<(std::ostream& o, E const& e) { return o << e.key << "#" << e.id; }

	[[noreturn]] inline void oops(char const* m) { throw pbt::Failure(std::string("range contract: ") + m); }

	// A literal, bounds-checked iterator over [lo, hi) with a chosen category.  Reading or moving outside is a failure.
	template<typename T, typename Cat>
	class It {
	public:
		typedef Cat iterator_category;
		typedef typename std::remove_cv<T>::type value_type;
		typedef std::ptrdiff_t difference_type;
		typedef T* pointer;
		typedef T& reference;
		T* lo; T* p; T* hi;
		constexpr It() : lo(0), p(0), hi(0) {}
		constexpr It(T* l, T* c, T* h) : lo(l), p(c), hi(h) {}
		template<typename U, typename = typename std::enable_if<std::is_convertible<U*, T*>::value>::type>
		constexpr It(It<U, Cat> const& o) : lo(o.lo), p(o.p), hi(o.hi) {}
		T& operator*() const { if (p < lo || p >= hi) oops("dereference outside the range"); return *p; }
		T* operator->() const { return &**this; }
		It& operator++() { if (p >= hi) oops("increment past the end"); ++p; return *this; }
		It operator++(int) { It t(*this); ++*this; return t; }
		It& operator--() { if (p <= lo) oops("decrement before the beginning"); --p; return *this; }
		It operator--(int) { It t(*this); --*this; return t; }
		It& operator+=(difference_type n) { if (n > hi - p || n < lo - p) oops("moved outside the range"); p += n; return *this; }
		It& operator-=(difference_type n) { return *this += -n; }
		T& operator[](difference_type n) const { return *(*this + n); }
		friend It operator+(It a, difference_type n) { a += n; return a; }
		friend It operator+(difference_type n, It a) { a += n; return a; }
		friend It operator-(It a, difference_type n) { a -= n; return a; }
		friend difference_type operator-(It const& a, It const& b) { return a.p - b.p; }
		friend bool operator==(It const& a, It const& b) { return a.p == b.p; }
		friend bool operator!=(It const& a, It const& b) { return a.p != b.p; }
		friend bool operator<(It const& a, It const& b) { return a.p < b.p; }
		friend bool operator>(It const& a, It const& b) { return a.p > b.p; }
		friend bool operator<=(It const& a, It const& b) { return a.p <= b.p; }
		friend bool operator>=(It const& a, It const& b) { return a.p >= b.p; }
	};
	// forward / bidirectional / input only have the operators of their category
	template<typename T, typename Cat> It<T, Cat> make_it(T* l, T* c, T* h) { return It<T, Cat>(l, c, h); }

	// ---- range kinds: holders with begin()/end() and index(it)
	template<typename Cat> struct KIt {
		template<typename T> struct R {
			std::vector<T> v; typedef It<T const, Cat> iter; typedef It<T, Cat> miter;
			explicit R(std::vector<T> const& x) : v(x) {}
			iter begin() const { return iter(v.data(), v.data(), v.data() + v.size()); }
			iter end() const { return iter(v.data(), v.data() + v.size(), v.data() + v.size()); }
			miter mbegin() { return miter(v.data(), v.data(), v.data() + v.size()); }
			miter mend() { return miter(v.data(), v.data() + v.size(), v.data() + v.size()); }
			template<typename I> long index(I const& i) const { return long(i.p - v.data()); }
			std::vector<T> get() const { return v; }
		};
	};
	typedef KIt<std::random_access_iterator_tag> KRa;
	typedef KIt<std::bidirectional_iterator_tag> KBi;
	typedef KIt<std::forward_iterator_tag> KFw;
	typedef KIt<std::input_iterator_tag> KIn;
	struct KPtr {
		template<typename T> struct R {
			T* p; size_t n;	// exactly sized heap block: the address sanitizer sees any access outside
			typedef T const* iter; typedef T* miter;
			explicit R(std::vector<T> const& x) : p(new T[x.size()]), n(x.size()) { for (size_t i = 0; i < n; ++i) p[i] = x[i]; }
			~R() { delete[] p; }
			R(R const&) = delete;
			iter begin() const { return p; }
			iter end() const { return p + n; }
			miter mbegin() { return p; }
			miter mend() { return p + n; }
			long index(T const* i) const { return long(i - p); }
			std::vector<T> get() const { return std::vector<T>(p, p + n); }
		};
	};
	struct KList {	// non-literal iterators
		template<typename T> struct R {
			std::list<T> v; typedef typename std::list<T>::const_iterator iter; typedef typename std::list<T>::iterator miter;
			explicit R(std::vector<T> const& x) : v(x.begin(), x.end()) {}
			iter begin() const { return v.begin(); }
			iter end() const { return v.end(); }
			miter mbegin() { return v.begin(); }
			miter mend() { return v.end(); }
			template<typename I> long index(I const& i) const { return long(std::distance(v.begin(), iter(i))); }
			std::vector<T> get() const { return std::vector<T>(v.begin(), v.end()); }
		};
	};

	inline std::vector<E> elems(std::vector<int> const& k, int base = 0) {
		std::vector<E> r;
		for (size_t i = 0; i < k.size(); ++i) r.push_back(E(k[i], base + int(i)));
		return r;
	}
	inline bool same(std::vector<E> const& a, std::vector<E> const& b) {
		if (a.size() != b.size()) return false;
		for (size_t i = 0; i < a.size(); ++i) if (!a[i].same(b[i])) return false;
		return true;
	}
	// predicates and comparators that are plain functors
	struct ModIs { int m, r; bool operator()(E const& e) const { return ((e.key % m) + m) % m == r; } bool operator()(int k) const { return ((k % m) + m) % m == r; } };
	struct Less { bool operator()(E const& a, E const& b) const { return a.key < b.key; } };
	struct Greater { bool operator()(E const& a, E const& b) const { return a.key > b.key; } };
	// a strict weak order with classes coarser than equality: compares key / q (floor)
	struct LessDiv { int q; int f(int k) const { return k >= 0 ? k / q : -((-k + q - 1) / q); } bool operator()(E const& a, E const& b) const { return f(a.key) < f(b.key); } };
	struct EqMod { int m; bool operator()(E const& a, E const& b) const { return ((a.key - b.key) % m) == 0; } };
}

#define PROP_KINDS5(fn, w) \
	PROP_INST(fn##_ra, w, fn<ck::KRa>) PROP_INST(fn##_ptr, w, fn<ck::KPtr>) PROP_INST(fn##_fwd, w, fn<ck::KFw>) \
	PROP_INST(fn##_bi, w, fn<ck::KBi>) PROP_INST(fn##_list, w, fn<ck::KList>)
#define PROP_KINDS6(fn, w) PROP_KINDS5(fn, w) PROP_INST(fn##_in, w, fn<ck::KIn>)
#define PROP_KINDS_BI(fn, w) PROP_INST(fn##_ra, w, fn<ck::KRa>) PROP_INST(fn##_ptr, w, fn<ck::KPtr>) PROP_INST(fn##_bi, w, fn<ck::KBi>) PROP_INST(fn##_list, w, fn<ck::KList>)
#define PROP_KINDS_RA(fn, w) PROP_INST(fn##_ra, w, fn<ck::KRa>) PROP_INST(fn##_ptr, w, fn<ck::KPtr>)
#endif
