#pragma once
#include <type_traits>
namespace takatori::util {
struct clone_tag_t { explicit constexpr clone_tag_t() = default; };
inline constexpr clone_tag_t clone_tag {};
template<class T>
inline constexpr bool is_clone_constructible_v =
        std::is_constructible_v<T, clone_tag_t, T const&> && std::is_constructible_v<T, clone_tag_t, T&&>;
template<class T>
struct is_clone_constructible : std::bool_constant<is_clone_constructible_v<T>> {};
}
