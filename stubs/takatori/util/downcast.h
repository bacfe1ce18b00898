// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <type_traits>
namespace takatori::util {
template<class To, class From> inline To& unsafe_downcast(From& v) { return static_cast<To&>(v); }
template<class To, class From> inline std::conditional_t<std::is_pointer_v<To>, To, std::add_pointer_t<To>> unsafe_downcast(From* v) { return static_cast<std::conditional_t<std::is_pointer_v<To>, To, std::add_pointer_t<To>>>(v); }
template<class To, class From> inline To* downcast(From* v) { return dynamic_cast<To*>(v); }
template<class To, class From> inline To& downcast(From& v) { return dynamic_cast<To&>(v); }
}
