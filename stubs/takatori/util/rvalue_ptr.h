#pragma once
#include <type_traits>
#include <utility>
#include <cstddef>
#include <memory>
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
template<class T>
class rvalue_ptr {
public:
    using element_type = T;
    constexpr rvalue_ptr() noexcept = default;
    constexpr rvalue_ptr(std::nullptr_t) noexcept {} // NOLINT
    constexpr rvalue_ptr(T&& v) noexcept : p_(std::addressof(v)) {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_ptr(rvalue_ptr<U> o) noexcept : p_(o.get()) {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_ptr(rvalue_reference_wrapper<U> o) noexcept : p_(std::addressof(o.as_ref())) {} // NOLINT
    constexpr T* get() const noexcept { return p_; }
    constexpr bool has_value() const noexcept { return p_ != nullptr; }
    explicit constexpr operator bool() const noexcept { return p_ != nullptr; }
    constexpr T& operator*() const noexcept { return *p_; }
    constexpr T* operator->() const noexcept { return p_; }
    constexpr T&& value() const { return std::move(*p_); }
private:
    T* p_ {};
};
}
