// F02: type traits
#include "pbt.hpp"
#include <sprout/type_traits.hpp>
#include <sprout/type_traits/introspection.hpp>
#include <sprout/complex.hpp>
#include <sprout/functional.hpp>
#include <type_traits>
#include <string>
#include <vector>
#include <utility>
#include <memory>

using namespace pbt;

namespace my {
enum E { e0 }; enum class EC : unsigned char { x }; 
struct Empty {}; struct Pod { int a; char b; }; struct NonTriv { NonTriv() {} ~NonTriv() {} int v; }; struct Abstract { virtual void f() = 0; };
struct Poly { virtual void f(); int x; }; struct VirtD : Poly { virtual ~VirtD(); }; struct Fin final { int a; }; union Uni { int a; float b; };
struct NoCopy { NoCopy() {} NoCopy(NoCopy const&) = delete; NoCopy& operator=(NoCopy const&) = delete; }; struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&) noexcept; MoveOnly& operator=(MoveOnly&&); };
struct NoDef { explicit NoDef(int); }; struct Throwing { Throwing() noexcept(false); Throwing(Throwing const&) noexcept(false); Throwing& operator=(Throwing const&) noexcept(false); ~Throwing() noexcept(false); };
struct FromInt { FromInt(int); operator double() const; }; struct Derived : Pod {}; struct Priv { private: ~Priv(); }; struct DelD { ~DelD() = delete; };
struct Mix { Mix() = default; int a; private: int b; }; struct Derived2 : Derived { int z; };
struct ToPod { operator Pod() const; explicit operator int*() const; }; struct Swp { Swp(Swp&&) = delete; Swp& operator=(Swp&&) = delete; friend void swap(Swp&, Swp&) noexcept {} };
struct SwpT { SwpT(SwpT&&); friend void swap(SwpT&, SwpT&) noexcept(false) {} };
}
namespace oth { struct Out { int a; }; template<typename T> struct Tmp {}; }
namespace sprout { struct In {}; }

// ---- types
template<typename... T> struct L {};
template<typename A, typename B> struct cat; template<typename... A, typename... B> struct cat<L<A...>, L<B...>> { typedef L<A..., B...> type; };
typedef L<void, bool, char, signed char, wchar_t, char16_t, char32_t, short, unsigned, long, unsigned long long, float, double, long double, std::nullptr_t, my::E, my::EC, my::Empty, my::Pod, my::NonTriv, my::Abstract,
	my::Poly, my::VirtD, my::Fin, my::Uni, my::NoCopy, my::MoveOnly, my::NoDef, my::Throwing, my::FromInt, my::Derived, my::Priv, my::DelD, my::Mix, my::ToPod, my::Swp, my::SwpT, std::string, int[3], int[], int[2][4], char[5], char16_t[], my::Pod[2], int(*)(int), int(int), void(), int(int) const, int (&)(int), void(int, ...),
	int my::Pod::*, int (my::Pod::*)(int) const, int**, char const*, my::Pod const* const*> base_t;
template<typename T> struct closure { typedef L<T, typename std::add_const<T>::type, typename std::add_volatile<T>::type, typename std::add_cv<T>::type, typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<typename std::add_const<T>::type>::type, typename std::add_rvalue_reference<T>::type> type; };
template<typename T> struct is_abom : std::integral_constant<bool, std::is_function<T>::value && std::is_same<typename std::add_lvalue_reference<T>::type, T>::value> {};

template<typename T> static std::string tname() { std::string s = __PRETTY_FUNCTION__; auto p = s.find("T = "); auto q = s.find(';', p + 4); if (q == std::string::npos) q = s.rfind(']'); return s.substr(p + 4, q - p - 4); }

#if __cplusplus >= 201703L
#	define V1(X) CHECK_MSG(bool(sprout::X<T>::value) == bool(std::X<T>::value), #X); CHECK_MSG(bool(sprout::X##_v<T>) == bool(std::X<T>::value), #X "_v");
#	define V17(X) V1(X)
#	define V2(X) CHECK_MSG(bool(sprout::X<T, U>::value) == bool(std::X<T, U>::value), #X); CHECK_MSG(bool(sprout::X##_v<T, U>) == bool(std::X<T, U>::value), #X "_v");
#	define T1(X) CHECK_MSG((std::is_same<typename sprout::X<T>::type, typename std::X<T>::type>::value), #X); CHECK_MSG((std::is_same<sprout::X##_t<T>, typename std::X<T>::type>::value), #X "_t");
#else
#	define V1(X) CHECK_MSG(bool(sprout::X<T>::value) == bool(std::X<T>::value), #X);
#	define V17(X)
#	define V2(X) CHECK_MSG(bool(sprout::X<T, U>::value) == bool(std::X<T, U>::value), #X);
#	define T1(X) CHECK_MSG((std::is_same<typename sprout::X<T>::type, typename std::X<T>::type>::value), #X); CHECK_MSG((std::is_same<sprout::X##_t<T>, typename std::X<T>::type>::value), #X "_t");
#endif

#ifndef PART
#define PART 0
#endif

#if PART == 0 || PART == 1
template<typename T> static void one() {
	V1(is_void) V1(is_integral) V1(is_floating_point) V1(is_array) V1(is_pointer) V1(is_lvalue_reference) V1(is_rvalue_reference) V1(is_member_object_pointer) V1(is_member_function_pointer) V1(is_enum) V1(is_union) V1(is_class) V1(is_function)
	V1(is_reference) V1(is_arithmetic) V1(is_fundamental) V1(is_object) V1(is_scalar) V1(is_compound) V1(is_member_pointer)
	V1(is_const) V1(is_volatile) V1(is_trivial) V1(is_standard_layout) V1(is_pod) V1(is_literal_type) V1(is_empty) V1(is_polymorphic) V1(is_abstract) V1(is_signed) V1(is_unsigned) V1(has_virtual_destructor) V1(rank)
	V1(is_default_constructible) V1(is_copy_constructible) V1(is_move_constructible) V1(is_copy_assignable) V1(is_move_assignable) V1(is_destructible)
	V1(is_nothrow_default_constructible) V1(is_nothrow_copy_constructible) V1(is_nothrow_move_constructible) V1(is_nothrow_copy_assignable) V1(is_nothrow_move_assignable) V1(is_nothrow_destructible) V1(is_trivially_destructible)
	V17(is_null_pointer) V17(is_final) V17(is_swappable) V17(is_nothrow_swappable) V17(is_aggregate) V17(has_unique_object_representations)
	CHECK_MSG((std::rank<T>::value == sprout::rank<T>::value), "rank"); CHECK_MSG((std::extent<T>::value == sprout::extent<T>::value), "extent 0"); CHECK_MSG((std::extent<T, 1>::value == sprout::extent<T, 1>::value), "extent 1");
	T1(remove_const) T1(remove_volatile) T1(remove_cv) T1(add_const) T1(add_volatile) T1(add_cv) T1(remove_reference) T1(add_lvalue_reference) T1(add_rvalue_reference) T1(remove_pointer) T1(add_pointer) T1(remove_extent) T1(remove_all_extents) T1(decay)
	// without compiler support the triviality traits answer for scalars only; they never claim more than the language grants
#define IMP(X) CHECK_MSG((!sprout::X<T>::value || std::X<T>::value), #X); CHECK_MSG((!std::is_scalar<T>::value || bool(sprout::X<T>::value) == bool(std::X<T>::value)), #X " of a scalar");
	IMP(is_trivially_copyable) IMP(is_trivially_copy_constructible) IMP(is_trivially_move_constructible) IMP(is_trivially_copy_assignable) IMP(is_trivially_move_assignable) IMP(is_trivially_default_constructible)
	// Sprout's own
	typedef typename std::remove_cv<T>::type U; typedef typename std::remove_reference<T>::type R;
	CHECK_MSG((std::is_same<typename sprout::remove_cvref<T>::type, typename std::remove_cv<R>::type>::value), "remove_cvref");
	CHECK_MSG((std::is_same<typename sprout::remove_shallow_const<T>::type, typename std::conditional<std::is_array<T>::value, T, typename std::remove_const<T>::type>::type>::value), "remove_shallow_const");
	CHECK_MSG((std::is_same<typename sprout::remove_shallow_volatile<T>::type, typename std::conditional<std::is_array<T>::value, T, typename std::remove_volatile<T>::type>::type>::value), "remove_shallow_volatile");
	CHECK_MSG((std::is_same<typename sprout::remove_shallow_cv<T>::type, typename std::conditional<std::is_array<T>::value, T, typename std::remove_cv<T>::type>::type>::value), "remove_shallow_cv");
	CHECK_MSG((std::is_same<typename sprout::remove_shallow_cvref<T>::type, typename std::conditional<std::is_array<R>::value, R, typename std::remove_cv<R>::type>::type>::value), "remove_shallow_cvref");
	CHECK_MSG((std::is_same<typename sprout::identity<T>::type, T>::value), "identity");
	CHECK_MSG((sprout::is_sint<T>::value == (std::is_integral<T>::value && std::is_signed<T>::value)), "is_sint");
	CHECK_MSG((sprout::is_uint<T>::value == (std::is_integral<T>::value && std::is_unsigned<T>::value)), "is_uint");
	CHECK_MSG((sprout::is_char_type<T>::value == (std::is_same<U, char>::value || std::is_same<U, wchar_t>::value || std::is_same<U, char16_t>::value || std::is_same<U, char32_t>::value)), "is_char_type");
	CHECK_MSG((sprout::is_c_str<T>::value == (std::is_array<T>::value && std::rank<T>::value == 1 && std::extent<T>::value != 0 && sprout::is_char_type<typename std::remove_cv<typename std::remove_extent<T>::type>::type>::value)), "is_c_str");
	CHECK_MSG((sprout::is_const_unqualified<T>::value == !std::is_const<T>::value), "is_const_unqualified");
	CHECK_MSG((sprout::is_volatile_unqualified<T>::value == !std::is_volatile<T>::value), "is_volatile_unqualified");
	CHECK_MSG((sprout::is_cv_unqualified<T>::value == (!std::is_volatile<T>::value && !std::is_const<T>::value)), "is_cv_unqualified");
	CHECK_MSG((std::is_same<typename sprout::copy_const<int, T>::type, typename std::conditional<std::is_const<T>::value, int const, int>::type>::value), "copy_const");
	CHECK_MSG((std::is_same<typename sprout::copy_volatile<int, T>::type, typename std::conditional<std::is_volatile<T>::value, int volatile, int>::type>::value), "copy_volatile");
	CHECK_MSG((std::is_same<typename sprout::copy_cv<int, T>::type, typename std::conditional<std::is_const<T>::value, typename sprout::copy_volatile<int, T>::type const, typename sprout::copy_volatile<int, T>::type>::type>::value), "copy_cv");
	CHECK_MSG((std::is_same<typename sprout::negation<std::is_void<T>>::type, void>::value == false && sprout::negation<std::is_void<T>>::value != std::is_void<T>::value), "negation");
	CHECK_MSG((sprout::conjunction<std::is_object<T>, std::is_class<T>, std::is_const<T>>::value == (std::is_object<T>::value && std::is_class<T>::value && std::is_const<T>::value)), "conjunction");
	CHECK_MSG((sprout::disjunction<std::is_array<T>, std::is_class<T>, std::is_const<T>>::value == (std::is_array<T>::value || std::is_class<T>::value || std::is_const<T>::value)), "disjunction");
	CHECK_MSG((std::is_same<typename sprout::conditional<std::is_class<T>::value, T, char>::type, typename std::conditional<std::is_class<T>::value, T, char>::type>::value), "conditional");
}
struct Row { void (*f)(); std::string (*n)(); };
static std::vector<Row> rows;
template<typename T> static int reg() { rows.push_back(Row{&one<T>, &tname<T>}); return 0; }
template<typename... T> static void regs(L<T...>) { int d[] = {reg<T>()...}; (void)d; }
template<typename T> static int close_() { regs(typename closure<T>::type()); return 0; }
template<typename... T> static void all(L<T...>) { int d[] = {close_<T>()...}; (void)d; }
PROP(unary, 10) {
	if (rows.empty()) all(base_t());
	std::size_t i = g.draw(rows.size()); g.note("type", rows[i].n()); g.nontrivial(i > 0);
	rows[i].f();
}
#endif

#if PART == 0 || PART == 2
typedef L<void, bool, char, short, unsigned, long, unsigned long long, float, double, long double, std::nullptr_t, my::E, my::EC, my::Empty, my::Pod, my::Pod const, my::Abstract, my::Fin, my::Uni, my::NoCopy, my::MoveOnly, my::NoDef, my::Throwing, my::FromInt, my::Derived, my::Derived2, my::Priv, my::DelD,
	my::ToPod, int[3], int[], int(int), int(*)(int), int&, int const&, int&&, int const, int*, int const*, void*, void const*, my::Pod*, my::Derived*, my::Derived const*, my::Pod&, my::Derived&, my::Derived2 const&, my::Pod&&, int my::Pod::*, int my::Derived::*, my::Throwing&, my::Throwing const&, my::NoCopy&, my::MoveOnly&, my::Swp&, my::SwpT&> pair_t;
template<typename T, typename U, bool = std::is_array<T>::value && std::extent<T>::value == 0> struct ctor { static void chk() { V2(is_constructible) V2(is_nothrow_constructible) } };
template<typename T, typename U> struct ctor<T, U, true> { static void chk() {} };
template<typename T, typename U> static void two() {
	V2(is_same) V2(is_base_of) V2(is_convertible) V2(is_assignable) V2(is_nothrow_assignable)
	ctor<T, U>::chk();
#if __cplusplus >= 201703L
	V2(is_swappable_with) V2(is_nothrow_swappable_with) V2(is_invocable) V2(is_nothrow_invocable)
	if (!std::is_reference<T>::value) CHECK_MSG(bool(sprout::is_invocable_r<T, U, int>::value) == bool(std::is_invocable_r<T, U, int>::value), "is_invocable_r");
#endif
	// the library's own conservative answers never claim triviality the language denies
	CHECK_MSG((!sprout::is_trivially_copyable<T>::value || std::is_trivially_copyable<T>::value), "is_trivially_copyable");
}
typedef void (*fn_t)();
struct Row2 { fn_t f; std::string (*a)(); std::string (*b)(); };
static std::vector<Row2> rows2;
template<typename T, typename U> static int reg2() { rows2.push_back(Row2{&two<T, U>, &tname<T>, &tname<U>}); return 0; }
template<typename T, typename... U> static int regs2(L<U...>) { int d[] = {reg2<T, U>()...}; (void)d; return 0; }
template<typename... T> static void all2(L<T...> l) { int d[] = {regs2<T>(l)...}; (void)d; }
PROP(binary, 30) {
	if (rows2.empty()) all2(pair_t());
	std::size_t i = g.draw(rows2.size()); g.note("first", rows2[i].a()); g.note("second", rows2[i].b()); g.nontrivial(rows2[i].a != rows2[i].b);
	rows2[i].f();
}
#endif

#if PART == 0 || PART == 3
// classes with a subset of the operators, by a bit mask; each operator may return something not convertible to int
struct odd_result {};
template<unsigned M, unsigned B> struct res { typedef typename std::conditional<((M * 2654435761u) >> (B % 16)) & 1, int, odd_result>::type type; };
#define OPB(N, OP) template<unsigned M, bool = (M >> N) & 1> struct ob##N {}; template<unsigned M> struct ob##N<M, true> { typename res<M, N>::type operator OP(int) const; };
#define OPA(N, OP) template<unsigned M, bool = (M >> N) & 1> struct ob##N {}; template<unsigned M> struct ob##N<M, true> { typename res<M, N>::type operator OP(int); };
#define OPU(N, OP) template<unsigned M, bool = (M >> N) & 1> struct ob##N {}; template<unsigned M> struct ob##N<M, true> { typename res<M, N>::type operator OP() const; };
// +,-,*,& exist as unary and binary, ++ and -- as prefix and postfix
#define OPBU(N, OP) template<unsigned M, unsigned = (M >> N) & 3> struct ob##N {}; template<unsigned M> struct ob##N<M, 1> { typename res<M, N>::type operator OP(int) const; }; \
	template<unsigned M> struct ob##N<M, 2> { typename res<M, N + 1>::type operator OP() const; }; template<unsigned M> struct ob##N<M, 3> { typename res<M, N>::type operator OP(int) const; typename res<M, N + 1>::type operator OP() const; };
OPBU(0, +) OPBU(2, -) OPBU(4, *) OPBU(6, &) OPBU(8, ++) OPBU(10, --) OPB(12, /) OPB(13, %) OPB(14, ==) OPB(15, <) OPB(16, <<) OPB(17, [])
OPU(18, ~) OPU(19, !) OPA(20, +=) OPA(21, <<=) OPB(22, ->*) OPB(23, |) OPB(24, &&) OPA(25, %=) OPB(26, >=) OPB(27, ^) OPB(28, >>) OPB(29, !=) OPA(30, -=) OPB(31, ||)
template<unsigned M> struct Ops : ob0<M>, ob2<M>, ob4<M>, ob6<M>, ob8<M>, ob10<M>, ob12<M>, ob13<M>, ob14<M>, ob15<M>, ob16<M>, ob17<M>, ob18<M>, ob19<M>, ob20<M>, ob21<M>, ob22<M>, ob23<M>, ob24<M>, ob25<M>, ob26<M>, ob27<M>, ob28<M>, ob29<M>, ob30<M>, ob31<M> {};
// the inverse operators on another mask so that pairs like << and >> are told apart
#define OPB2(N, OP) template<unsigned M, bool = (M >> N) & 1> struct oc##N {}; template<unsigned M> struct oc##N<M, true> { typename res<M, N>::type operator OP(int) const; };
#define OPA2(N, OP) template<unsigned M, bool = (M >> N) & 1> struct oc##N {}; template<unsigned M> struct oc##N<M, true> { typename res<M, N>::type operator OP(int); };
OPB2(0, >) OPB2(1, <=) OPA2(2, *=) OPA2(3, /=) OPA2(4, &=) OPA2(5, |=) OPA2(6, ^=) OPA2(7, >>=)
template<unsigned M> struct Opt : oc0<M>, oc1<M>, oc2<M>, oc3<M>, oc4<M>, oc5<M>, oc6<M>, oc7<M> {};

#define DET2(N, E) template<typename T, typename U> struct d_##N { template<typename A = T, typename B = U> static auto t(int) -> decltype(E, std::true_type()); static std::false_type t(...); static constexpr bool value = decltype(t(0))::value; \
	template<typename A = T, typename B = U> static auto r(int) -> std::is_convertible<decltype(E), int>; static std::false_type r(...); static constexpr bool conv = decltype(r(0))::value; };
#define A_ std::declval<A>()
#define B_ std::declval<B>()
#define BINS(X) X(plus, A_ + B_) X(minus, A_ - B_) X(multiplies, A_ * B_) X(divides, A_ / B_) X(modulus, A_ % B_) X(equal_to, A_ == B_) X(not_equal_to, A_ != B_) X(less, A_ < B_) X(greater, A_ > B_) X(less_equal, A_ <= B_) X(greater_equal, A_ >= B_) \
	X(logical_and, A_ && B_) X(logical_or, A_ || B_) X(bit_and, A_ & B_) X(bit_or, A_ | B_) X(bit_xor, A_ ^ B_) X(shift_left, A_ << B_) X(shift_right, A_ >> B_) \
	X(plus_assign, A_ += B_) X(minus_assign, A_ -= B_) X(multiplies_assign, A_ *= B_) X(divides_assign, A_ /= B_) X(modulus_assign, A_ %= B_) X(bit_and_assign, A_ &= B_) X(bit_or_assign, A_ |= B_) X(bit_xor_assign, A_ ^= B_) X(shift_left_assign, A_ <<= B_) X(shift_right_assign, A_ >>= B_) \
	X(subscript, A_[B_]) X(assign, A_ = B_) X(member_pointer, A_->*B_) X(member, A_.*B_)
#define UNS(X) X(negate, -A_) X(posite, +A_) X(bit_not, ~A_) X(logical_not, !A_) X(dereference, *A_) X(address_of, &A_) X(pre_increment, ++A_) X(pre_decrement, --A_) X(post_increment, A_++) X(post_decrement, A_--)
BINS(DET2)
UNS(DET2)
// void results in the comma detector above are fine: (E, true_type()) uses the built-in comma
#define CHK2(N, E) CHECK_MSG((sprout::has_##N<T, U>::value == d_##N<T, U>::value), "has_" #N); CHECK_MSG((sprout::has_##N<T, U, int>::value == d_##N<T, U>::conv), "has_" #N " with result int");
#define CHK1(N, E) CHECK_MSG((sprout::has_##N<T>::value == d_##N<T, T>::value), "has_" #N); CHECK_MSG((sprout::has_##N<T, int>::value == d_##N<T, T>::conv), "has_" #N " with result int");
template<typename T, typename U> static void ops2() {
	BINS(CHK2)
	CHECK_MSG((sprout::has_left_shift<T, U>::value == sprout::has_shift_left<T, U>::value && sprout::has_right_shift<T, U>::value == sprout::has_shift_right<T, U>::value), "aliases");
	CHECK_MSG((sprout::has_left_shift_assign<T, U>::value == d_shift_left_assign<T, U>::value && sprout::has_right_shift_assign<T, U>::value == d_shift_right_assign<T, U>::value), "aliases");
}
template<typename T> static void ops1() {
	UNS(CHK1)
	CHECK_MSG((sprout::has_complement<T>::value == d_bit_not<T, T>::value && sprout::has_unary_minus<T>::value == d_negate<T, T>::value && sprout::has_unary_plus<T>::value == d_posite<T, T>::value), "aliases");
}
struct Row3 { void (*f)(); std::string (*a)(); std::string (*b)(); };
static std::vector<Row3> rows3;
template<typename T, typename U> static int reg3() { rows3.push_back(Row3{&ops2<T, U>, &tname<T>, &tname<U>}); return 0; }
template<typename T> static int reg4() { rows3.push_back(Row3{&ops1<T>, &tname<T>, &tname<void>}); rows3.push_back(Row3{&ops1<T&>, &tname<T&>, &tname<void>}); return reg3<T, int>() + reg3<T&, int>() + reg3<T const&, int>() + reg3<T&, int my::Pod::*>(); }
template<typename... T> static void all4(L<T...>) { int d[] = {reg4<T>()...}; (void)d; }
typedef L<int, bool, double, char, my::E, my::EC, std::nullptr_t, int*, int**, my::Pod, my::Pod*, my::ToPod, my::FromInt, my::NoCopy, std::string, std::shared_ptr<my::Pod>, std::vector<int>::iterator, int[4], sprout::complex<float>,
	Ops<0>, Ops<~0u>, Ops<0x12345678u>, Ops<0xedcba987u>, Ops<0x55555555u>, Ops<0xaaaaaaaau>, Ops<0x0f0f0f0fu>, Ops<0xf0f0f0f0u>, Ops<0x33333333u>, Ops<0xccccccccu>, Ops<0x9e3779b9u>, Ops<0x7f4a7c15u>, Ops<0x00ff00ffu>, Ops<0xff00ff00u>, Ops<0x0000ffffu>, Ops<0xffff0000u>, Ops<0x6b43a9b5u>,
	Opt<0>, Opt<0xff>, Opt<0x55>, Opt<0xaa>, Opt<0x0f>, Opt<0xf0>, Opt<0x33>, Opt<0xcc>, Opt<0x9e>> op_t;
PROP(operators, 20) {
	if (rows3.empty()) all4(op_t());
	std::size_t i = g.draw(rows3.size()); g.note("first", rows3[i].a()); g.note("second", rows3[i].b()); g.nontrivial(true);
	rows3[i].f();
}

// ---- promotion and namespace membership
typedef L<bool, char, signed char, short, unsigned short, int, unsigned, long, unsigned long, long long, float, double, long double, int const, float volatile, double const> ar_t;
template<typename T, typename U> static void promo() {
	typedef typename std::remove_cv<T>::type A; typedef typename std::remove_cv<U>::type B;
	typedef typename std::conditional<std::is_floating_point<A>::value, A, double>::type FA; typedef typename std::conditional<std::is_floating_point<B>::value, B, double>::type FB;
	CHECK_MSG((std::is_same<typename sprout::float_promote<T>::type, FA>::value), "float_promote of one");
	CHECK_MSG((std::is_same<typename sprout::float_promote<T, U>::type, decltype(FA() + FB())>::value), "float_promote");
	CHECK_MSG((std::is_same<typename sprout::float_promote<T, U, float>::type, decltype(FA() + FB() + 1.f)>::value), "float_promote of three");
	CHECK_MSG((std::is_same<typename sprout::arithmetic_promote<T, U>::type, decltype(A() + B())>::value), "arithmetic_promote");
	CHECK_MSG((std::is_same<typename sprout::arithmetic_promote<T, U, float>::type, decltype(A() + B() + 1.f)>::value), "arithmetic_promote of three");
	CHECK_MSG((std::is_same<typename sprout::complex_promote<T, U>::type, sprout::complex<decltype(FA() + FB())>>::value), "complex_promote");
	CHECK_MSG((std::is_same<typename sprout::complex_promote<sprout::complex<FA>, U>::type, sprout::complex<decltype(FA() + FB())>>::value), "complex_promote");
	CHECK_MSG((std::is_same<typename sprout::common_type<T, U>::type, typename std::common_type<T, U>::type>::value), "common_type");
	CHECK_MSG((std::is_same<typename sprout::common_type<T, U, short>::type, typename std::common_type<T, U, short>::type>::value), "common_type of three");
}
static std::vector<Row3>& rows3b() { static std::vector<Row3> v; return v; }
template<typename T, typename U> static int reg5() { rows3b().push_back(Row3{&promo<T, U>, &tname<T>, &tname<U>}); return 0; }
template<typename T, typename... U> static int regs5(L<U...>) { int d[] = {reg5<T, U>()...}; (void)d; return 0; }
template<typename... T> static void all5(L<T...> l) { int d[] = {regs5<T>(l)...}; (void)d; }
PROP(promotion, 4) {
	auto& rows = rows3b(); if (rows.empty()) all5(ar_t());
	std::size_t i = g.draw(rows.size()); g.note("first", rows[i].a()); g.note("second", rows[i].b()); g.nontrivial(true);
	rows[i].f();
}
template<typename T> struct mk { static void f() {
	CHECK_MSG((std::is_same<typename sprout::make_unsigned<T>::type, typename std::make_unsigned<T>::type>::value), "make_unsigned"); CHECK_MSG((std::is_same<typename sprout::make_signed<T>::type, typename std::make_signed<T>::type>::value), "make_signed"); } };
PROP(others, 1) {
	g.nontrivial(true); g.draw(2);
	mk<char>::f(); mk<int const>::f(); mk<unsigned long>::f(); mk<my::E>::f(); mk<my::EC>::f(); mk<wchar_t>::f(); mk<short volatile>::f();
	CHECK((std::is_same<sprout::underlying_type<my::EC>::type, unsigned char>::value));
	CHECK(sprout::is_within_namespace_std<std::string>::value && !sprout::is_within_namespace_std<oth::Out>::value && !sprout::is_within_namespace_std<int>::value);
	CHECK(sprout::is_within_namespace_sprout<sprout::complex<float>>::value && sprout::is_within_namespace_sprout<sprout::In>::value && !sprout::is_within_namespace_sprout<oth::Out>::value && !sprout::is_within_namespace_sprout<my::Pod>::value);
	CHECK((sprout::is_upcast<my::Derived*, my::Pod*>::value && !sprout::is_upcast<my::Pod*, my::Derived*>::value && sprout::is_upcast<my::Derived2&, my::Pod&>::value && !sprout::is_upcast<my::Pod&, my::Derived2&>::value && sprout::is_upcast<std::nullptr_t, my::Pod*>::value && !sprout::is_upcast<my::Derived*, my::Fin*>::value));
	CHECK((sprout::is_nullptr_cast<std::nullptr_t, int*>::value && !sprout::is_nullptr_cast<std::nullptr_t, int>::value && !sprout::is_nullptr_cast<int*, int*>::value));
	CHECK((sprout::is_const_cast_convertible<int const*, int*>::value && !sprout::is_const_cast_convertible<int const*, short*>::value && sprout::is_const_cast_convertible<int const&, int&>::value && !sprout::is_const_cast_convertible<my::Derived*, my::Pod*>::value));
	CHECK((sprout::is_convert_constructible<my::FromInt, int>::value && !sprout::is_convert_constructible<my::NoDef, int>::value && sprout::is_convert_constructible<double, my::FromInt>::value));
	CHECK((std::is_same<sprout::const_reference<int&>::type, int const&>::value && std::is_same<sprout::lvalue_reference<int&>::type, int&>::value));
	CHECK((sizeof(sprout::aligned_storage<13, 8>::type) >= 13 && std::alignment_of<sprout::aligned_storage<13, 8>::type>::value % 8 == 0 && sprout::alignment_of<double>::value == alignof(double)));
	CHECK((sizeof(sprout::aligned_union<3, my::Pod, double, int[5]>::type) >= sizeof(int[5]) && alignof(sprout::aligned_union<3, my::Pod, double>::type) >= alignof(double)));
}
#endif
