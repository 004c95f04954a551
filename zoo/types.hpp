// Types and oracles for the type-level witnesses of C11.  Nothing here is ever run.
#ifndef VERIF_ZOO_TYPES_HPP
#define VERIF_ZOO_TYPES_HPP
#include <cstddef>
#include <type_traits>
#include <utility>
#include <iterator>
#include <tuple>
#include <cmath>
#include <complex>
#include <string>
#include <memory>
namespace zt {
	struct empty {};
	struct empty2 {};
	struct pod { int a; double b; };
	struct padded { char c; int i; };
	struct nontriv { nontriv(); nontriv(nontriv const&); nontriv& operator=(nontriv const&); ~nontriv(); int x; };
	struct nothrow_all { nothrow_all() noexcept; nothrow_all(nothrow_all const&) noexcept; nothrow_all& operator=(nothrow_all const&) noexcept; };
	struct nocopy { nocopy(); nocopy(nocopy const&) = delete; nocopy& operator=(nocopy const&) = delete; };
	struct moveonly { moveonly(); moveonly(moveonly&&); moveonly& operator=(moveonly&&); };
	struct copyonly { copyonly(); copyonly(copyonly const&); copyonly& operator=(copyonly const&); };
	struct noassign { noassign(); noassign(noassign const&); noassign& operator=(noassign const&) = delete; };
	struct nodefault { nodefault(int); };
	struct expl { expl(); explicit expl(int) noexcept; explicit operator bool() const; };
	struct conv { operator int() const; };
	struct nothrow_conv { operator int() const noexcept; };
	struct throwing_dtor { ~throwing_dtor() noexcept(false); };
	class privdtor { ~privdtor(); public: privdtor(); };
	struct deleted_dtor { ~deleted_dtor() = delete; };
	struct abstr { virtual void f() = 0; };
	struct poly { virtual void f(); int x; };
	struct vdtor { virtual ~vdtor(); };
	struct finl final { int x; };
	struct base { int b; };
	struct derived : base { int d; };
	struct privder : private base {};
	struct vder : virtual base {};
	struct left : base {}; struct right : base {}; struct diamond : left, right {};
	struct bit { int b : 3; };
	struct nonstd { int a; private: int b; public: int geta() const; };
	struct withref { int& r; };
	struct swp { friend void swap(swp&, swp&) noexcept; };
	struct swpthrow { friend void swap(swpthrow&, swpthrow&); };
	struct hs2;
	struct hs3;
	struct hs1 { friend void swap(hs1&, hs1&) noexcept; friend void swap(hs1&, hs2&) noexcept; friend void swap(hs2&, hs1&); friend void swap(hs1&, hs3&) noexcept; friend void swap(hs3&, hs1&) noexcept; friend void swap(hs1&, int&); };
	struct hs2 { friend void swap(hs2&, hs2&); };
	struct hs3 { friend void swap(hs3&, hs3&) noexcept; };
	struct asy { friend bool operator<(asy, int); friend int operator+(asy, int); friend asy& operator-=(asy&, long); friend bool operator==(int, asy); operator bool() const; };
	struct noswp { noswp(noswp const&) = delete; noswp& operator=(noswp const&) = delete; };
	struct callable { int operator()(int) const noexcept; double operator()(double, int); void operator()(); };
	struct lit { int v; constexpr lit(int x) : v(x) {} };
	struct nonlit { nonlit(); ~nonlit(); };
	template<class T> struct tmpl { T t; typedef T type; static constexpr int value = 1; };
	enum en { e0, e1 }; enum ens : short { s0 }; enum class ec { a }; enum class ecu : unsigned char { b };
	union un { int a; float b; }; union unt { unt(); ~unt(); int a; nontriv n; };
	struct amp { void operator&() const; };
	// operators of several shapes
	struct num {
		num(); num operator+(num const&) const; num operator-(num const&) const; num operator*(num const&) const; num operator/(num const&) const; num operator%(num const&) const;
		num operator-() const; num operator+() const; num operator~() const; bool operator!() const;
		num& operator+=(num const&); num& operator-=(num const&); num& operator*=(num const&); num& operator/=(num const&); num& operator%=(num const&);
		num& operator&=(num const&); num& operator|=(num const&); num& operator^=(num const&); num& operator<<=(int); num& operator>>=(int);
		num operator&(num const&) const; num operator|(num const&) const; num operator^(num const&) const; num operator<<(int) const; num operator>>(int) const;
		bool operator==(num const&) const; bool operator!=(num const&) const; bool operator<(num const&) const; bool operator>(num const&) const; bool operator<=(num const&) const; bool operator>=(num const&) const;
		bool operator&&(num const&) const; bool operator||(num const&) const;
		num& operator++(); num operator++(int); num& operator--(); num operator--(int);
		int& operator[](std::size_t); int& operator*() const; void operator,(num const&) const; int empty::* operator->*(int) const;
	};
	struct onlyeq { void operator==(onlyeq const&) const; };
	struct onlylt { bool operator<(onlylt const&) const; };
	struct onlypre { void operator++(); }; struct onlypost { void operator--(int); };
	struct nonconstop { int operator+(nonconstop&) ; int operator-(); nonconstop& operator+=(int); };
	struct delop { delop operator+(delop const&) const = delete; };
	// --- detectors written independently of the library
	template<class...> struct mk { typedef void type; };
	struct any_r {};
	template<class E, class R> struct conv_to : std::is_convertible<E, R> {};
	template<class E> struct conv_to<E, any_r> : std::true_type {};
#define ZT_BIN(name, expr) \
	template<class A, class B, class R, class = void> struct d_##name : std::false_type {}; \
	template<class A, class B, class R> struct d_##name<A, B, R, typename mk<decltype(expr)>::type> : conv_to<decltype(expr), R> {};
#define ZT_UN(name, expr) \
	template<class A, class R, class = void> struct d_##name : std::false_type {}; \
	template<class A, class R> struct d_##name<A, R, typename mk<decltype(expr)>::type> : conv_to<decltype(expr), R> {};
#define ZT_A std::declval<A>()
#define ZT_B std::declval<B>()
	ZT_BIN(plus, ZT_A + ZT_B) ZT_BIN(minus, ZT_A - ZT_B) ZT_BIN(multiplies, ZT_A * ZT_B) ZT_BIN(divides, ZT_A / ZT_B) ZT_BIN(modulus, ZT_A % ZT_B)
	ZT_BIN(plus_assign, ZT_A += ZT_B) ZT_BIN(minus_assign, ZT_A -= ZT_B) ZT_BIN(multiplies_assign, ZT_A *= ZT_B) ZT_BIN(divides_assign, ZT_A /= ZT_B) ZT_BIN(modulus_assign, ZT_A %= ZT_B)
	ZT_BIN(bit_and, ZT_A & ZT_B) ZT_BIN(bit_or, ZT_A | ZT_B) ZT_BIN(bit_xor, ZT_A ^ ZT_B) ZT_BIN(shift_left, ZT_A << ZT_B) ZT_BIN(shift_right, ZT_A >> ZT_B)
	ZT_BIN(bit_and_assign, ZT_A &= ZT_B) ZT_BIN(bit_or_assign, ZT_A |= ZT_B) ZT_BIN(bit_xor_assign, ZT_A ^= ZT_B) ZT_BIN(shift_left_assign, ZT_A <<= ZT_B) ZT_BIN(shift_right_assign, ZT_A >>= ZT_B)
	ZT_BIN(left_shift, ZT_A << ZT_B) ZT_BIN(right_shift, ZT_A >> ZT_B) ZT_BIN(left_shift_assign, ZT_A <<= ZT_B) ZT_BIN(right_shift_assign, ZT_A >>= ZT_B)
	ZT_BIN(equal_to, ZT_A == ZT_B) ZT_BIN(not_equal_to, ZT_A != ZT_B) ZT_BIN(less, ZT_A < ZT_B) ZT_BIN(greater, ZT_A > ZT_B) ZT_BIN(less_equal, ZT_A <= ZT_B) ZT_BIN(greater_equal, ZT_A >= ZT_B)
	ZT_BIN(logical_and, ZT_A && ZT_B) ZT_BIN(logical_or, ZT_A || ZT_B) ZT_BIN(assign, ZT_A = ZT_B) ZT_BIN(comma, (ZT_A , ZT_B)) ZT_BIN(subscript, ZT_A[ZT_B])
	ZT_BIN(member, ZT_A .* ZT_B) ZT_BIN(member_pointer, ZT_A ->* ZT_B)
	ZT_UN(negate, - ZT_A) ZT_UN(unary_minus, - ZT_A) ZT_UN(unary_plus, + ZT_A) ZT_UN(posite, + ZT_A) ZT_UN(bit_not, ~ ZT_A) ZT_UN(complement, ~ ZT_A) ZT_UN(logical_not, ! ZT_A)
	ZT_UN(dereference, * ZT_A) ZT_UN(address_of, & ZT_A) ZT_UN(pre_increment, ++ ZT_A) ZT_UN(pre_decrement, -- ZT_A) ZT_UN(post_increment, ZT_A ++) ZT_UN(post_decrement, ZT_A --)
	// --- promotions
	template<class T> struct fp1 : std::conditional<std::is_floating_point<T>::value, T, double> {};
	template<class... T> struct fp;
	template<class T> struct fp<T> : fp1<typename std::remove_cv<T>::type> {};
	template<class T, class U, class... R> struct fp<T, U, R...> : fp<decltype(typename fp1<typename std::remove_cv<T>::type>::type() + typename fp1<typename std::remove_cv<U>::type>::type()), R...> {};
	template<class... T> struct ap;
	template<class T> struct ap<T> : std::remove_cv<T> {};
	template<class T, class U, class... R> struct ap<T, U, R...> : ap<decltype(std::declval<T>() + std::declval<U>()), R...> {};
	// --- cv
	template<class T> struct is_c : std::integral_constant<bool, false> {};
	template<class U> struct cvof { static constexpr bool c = std::is_const<U>::value, v = std::is_volatile<U>::value; };
	template<class T, bool C, bool V> struct addcv { typedef typename std::conditional<C, typename std::add_const<T>::type, T>::type t1; typedef typename std::conditional<V, typename std::add_volatile<t1>::type, t1>::type type; };
	template<class T, class U> struct cp_cv : addcv<T, cvof<U>::c, cvof<U>::v> {};
	template<class T, class U> struct cp_c : addcv<T, cvof<U>::c, false> {};
	template<class T, class U> struct cp_v : addcv<T, false, cvof<U>::v> {};
	template<class T> struct rs_c : std::conditional<std::is_array<T>::value, T, typename std::remove_const<T>::type> {};
	template<class T> struct rs_v : std::conditional<std::is_array<T>::value, T, typename std::remove_volatile<T>::type> {};
	template<class T> struct rs_cv : std::conditional<std::is_array<T>::value, T, typename std::remove_cv<T>::type> {};
	template<class T> struct rs_cvref : rs_cv<typename std::remove_reference<T>::type> {};
	// --- lists
	template<int N> struct el { static constexpr int n = N; };
	template<int N> using ic = std::integral_constant<int, N>;
	template<class... T> struct list {};
	struct even { template<class T> struct apply : std::integral_constant<bool, T::value % 2 == 0> {}; };
	struct tri { template<class T> struct apply { typedef std::integral_constant<int, T::value * 3> type; static constexpr int value = T::value * 3; }; };
	struct sub { template<class T, class U> struct apply { typedef std::integral_constant<int, T::value - U::value> type; static constexpr int value = T::value - U::value; }; };
	struct gt { template<class T, class U> struct apply : std::integral_constant<bool, (T::value > U::value)> {}; };
	template<class T> T obj();
	// X::type where there is one, none otherwise
	struct none;
	template<class X, class = void> struct typeof_ { typedef none type; };
	template<class X> struct typeof_<X, typename mk<typename X::type>::type> { typedef typename X::type type; };
	template<class A, class B> struct same_result : std::is_same<typename typeof_<A>::type, typename typeof_<B>::type> {};
template<bool...> struct vals_bool {};
template<char...> struct vals_char {};
template<short...> struct vals_short {};
template<unsigned char...> struct vals_unsigned_char {};
template<wchar_t...> struct vals_wchar_t {};
template<unsigned long...> struct vals_unsigned_long {};
template<long long...> struct vals_long_long {};
template<signed char...> struct vals_signed_char {};
template<char16_t...> struct vals_char16_t {};
template<char32_t...> struct vals_char32_t {};
template<unsigned short...> struct vals_unsigned_short {};
template<unsigned...> struct vals_unsigned {};
template<long...> struct vals_long {};
template<unsigned long long...> struct vals_unsigned_long_long {};
template<int...> struct vals_int {};
}
#endif
