#pragma once
#include <utility>
namespace takatori::util {
template<class T>
class rvalue_reference_wrapper {
public:
    using type = T;
    constexpr rvalue_reference_wrapper(T&& v) noexcept : p_(&v) {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_reference_wrapper(rvalue_reference_wrapper<U> o) noexcept : p_(&o.as_ref()) {} // NOLINT
    constexpr T&& get() const noexcept { return std::move(*p_); }
    constexpr operator T&&() const noexcept { return std::move(*p_); } // NOLINT
    constexpr T&& operator*() const noexcept { return std::move(*p_); }
    constexpr T& as_ref() const noexcept { return *p_; }
private:
    T* p_;
};
template<class T> rvalue_reference_wrapper(T&&) -> rvalue_reference_wrapper<T>;
}
