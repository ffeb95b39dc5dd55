#pragma once
#include <cstddef>
#include <memory>
#include <optional>
#include <ostream>
#include <type_traits>
#include <utility>
#include <stdexcept>
namespace takatori::util {
template<class T>
class optional_ptr {
public:
    using value_type = T;
    using reference = T&;
    using pointer = T*;
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {} // NOLINT
    constexpr optional_ptr(std::nullopt_t) noexcept {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    explicit constexpr optional_ptr(U* p) noexcept : p_(p) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr optional_ptr(U& r) noexcept : p_(std::addressof(r)) {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr optional_ptr(optional_ptr<U> o) noexcept : p_(o.get()) {} // NOLINT
    constexpr T* get() const noexcept { return p_; }
    constexpr T& operator*() const noexcept { return *p_; }
    constexpr T* operator->() const noexcept { return p_; }
    constexpr T& value() const { if (!p_) throw std::out_of_range("optional_ptr"); return *p_; }
    constexpr bool has_value() const noexcept { return p_ != nullptr; }
    explicit constexpr operator bool() const noexcept { return p_ != nullptr; }
    constexpr void reset() noexcept { p_ = nullptr; }
    constexpr void reset(T* p) noexcept { p_ = p; }
private:
    T* p_ {};
};
template<class T> optional_ptr(T*) -> optional_ptr<T>;
template<class T> optional_ptr(T&) -> optional_ptr<T>;
template<class T, class U> constexpr bool operator==(optional_ptr<T> a, optional_ptr<U> b) noexcept { return a.get() == b.get(); }
template<class T, class U> constexpr bool operator!=(optional_ptr<T> a, optional_ptr<U> b) noexcept { return a.get() != b.get(); }
template<class T> constexpr bool operator==(optional_ptr<T> a, std::nullptr_t) noexcept { return !a; }
template<class T> constexpr bool operator!=(optional_ptr<T> a, std::nullptr_t) noexcept { return static_cast<bool>(a); }
template<class T> std::ostream& operator<<(std::ostream& o, optional_ptr<T> v) { if (v) return o << *v; return o << "(null)"; }
}
