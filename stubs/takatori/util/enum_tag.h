#pragma once
#include <type_traits>
namespace takatori::util {
template<auto V> struct enum_tag_t : std::integral_constant<decltype(V), V> { explicit constexpr enum_tag_t() = default; };
template<auto V> inline constexpr enum_tag_t<V> enum_tag {};
}
