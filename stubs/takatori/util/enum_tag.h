// Analysed only: stands in for a header that is not installed here.
#pragma once
namespace takatori::util { template <auto V> struct enum_tag_t { explicit enum_tag_t() = default; }; template <auto V> inline constexpr enum_tag_t<V> enum_tag{};
template <auto V, class F, class... A> auto enum_tag_callback(F&& f, A&&... a) { return f(enum_tag<V>, static_cast<A&&>(a)...); } }
