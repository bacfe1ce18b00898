// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <ostream>
namespace takatori::util {
template<class T> struct print_support_stub { T const* v; };
template<class T> print_support_stub<T> print_support(T const& v);
template<class T> std::ostream& operator<<(std::ostream& out, print_support_stub<T> v);
}
