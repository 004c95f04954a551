// Archetype types the instantiation witnesses are written with.
#ifndef VERIF_ZOO_ARCH_HPP
#define VERIF_ZOO_ARCH_HPP
#include <cstddef>
#include <iterator>
#include <iostream>
#include <type_traits>
namespace arch {
#if __cplusplus >= 201402L
#	define ARCH_CX14 constexpr
#else
#	define ARCH_CX14
#endif
	template<class T> T val();	// never defined: only its type matters
	struct pred { template<class... A> constexpr bool operator()(A const&...) const { return true; } };
	struct gen { constexpr int operator()() const { return 1; } };
	struct un { template<class T> constexpr T operator()(T const& x) const { return x; } };
	struct bin { template<class T, class U> constexpr T operator()(T const& x, U const&) const { return x; } };
	struct pred2 { template<class A, class B> constexpr bool operator()(A const&, B const&) const { return true; } };
	struct unf { template<class T> constexpr sprout::pair<T, T> operator()(T const& x) const { return sprout::pair<T, T>(x, x); } };
	struct S { int d; constexpr int f(int x) const { return x; } };
	struct un1 { typedef int argument_type; typedef bool result_type; constexpr bool operator()(int) const { return true; } };
	struct bi1 { typedef int first_argument_type; typedef int second_argument_type; typedef bool result_type; constexpr bool operator()(int, int) const { return true; } };
	struct proc { template<class... A> ARCH_CX14 void operator()(A&&...) const {} };
	// iterators that offer what their category demands and nothing more
	template<class T, class Cat> struct iter {
		typedef Cat iterator_category; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
		T* p;
		constexpr iter() : p() {}
		explicit constexpr iter(T* q) : p(q) {}
		constexpr T& operator*() const { return *p; }
		constexpr T* operator->() const { return p; }
		ARCH_CX14 iter& operator++() { ++p; return *this; }
		ARCH_CX14 iter operator++(int) { iter t(*this); ++p; return t; }
		friend constexpr bool operator==(iter const& a, iter const& b) { return a.p == b.p; }
		friend constexpr bool operator!=(iter const& a, iter const& b) { return a.p != b.p; }
		friend constexpr iter iterator_next(iter const& a) { return iter(a.p + 1); }
	};
	template<class T> struct iter<T, std::bidirectional_iterator_tag> {
		typedef std::bidirectional_iterator_tag iterator_category; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
		T* p;
		constexpr iter() : p() {}
		explicit constexpr iter(T* q) : p(q) {}
		constexpr T& operator*() const { return *p; }
		constexpr T* operator->() const { return p; }
		ARCH_CX14 iter& operator++() { ++p; return *this; }
		ARCH_CX14 iter operator++(int) { iter t(*this); ++p; return t; }
		ARCH_CX14 iter& operator--() { --p; return *this; }
		ARCH_CX14 iter operator--(int) { iter t(*this); --p; return t; }
		friend constexpr bool operator==(iter const& a, iter const& b) { return a.p == b.p; }
		friend constexpr bool operator!=(iter const& a, iter const& b) { return a.p != b.p; }
		friend constexpr iter iterator_next(iter const& a) { return iter(a.p + 1); }
		friend constexpr iter iterator_prev(iter const& a) { return iter(a.p - 1); }
	};
	typedef iter<int const, std::input_iterator_tag> cin;
	typedef iter<int const, std::forward_iterator_tag> cfwd;
	typedef iter<int const, std::bidirectional_iterator_tag> cbid;
	typedef iter<int, std::forward_iterator_tag> fwd;
	typedef iter<int, std::bidirectional_iterator_tag> bid;
}
#endif
