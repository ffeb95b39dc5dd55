#pragma once
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class C, class... A> inline constexpr bool is_callback_v = std::is_invocable_v<C, A...>;
template<class T, class C, class U, class... A>
inline decltype(auto) polymorphic_callback(C&& callback, U&& value, A&&... args) {
    if constexpr (std::is_const_v<std::remove_reference_t<U>>) {
        return std::forward<C>(callback)(static_cast<T const&>(value), std::forward<A>(args)...);
    } else {
        return std::forward<C>(callback)(static_cast<T&>(value), std::forward<A>(args)...);
    }
}
}
