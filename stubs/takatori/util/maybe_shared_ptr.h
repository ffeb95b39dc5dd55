#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class maybe_shared_ptr {
public:
    using element_type = T;
    constexpr maybe_shared_ptr() noexcept = default;
    constexpr maybe_shared_ptr(std::nullptr_t) noexcept {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    explicit maybe_shared_ptr(U* p) noexcept : p_(p) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::shared_ptr<U> s) noexcept : s_(std::move(s)), p_(s_.get()) {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::unique_ptr<U> s) noexcept : s_(std::move(s)), p_(s_.get()) {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(maybe_shared_ptr<U> o) noexcept : s_(o.ownership()), p_(o.get()) {} // NOLINT
    maybe_shared_ptr(maybe_shared_ptr const&) = default;
    maybe_shared_ptr(maybe_shared_ptr&& o) noexcept : s_(std::move(o.s_)), p_(std::exchange(o.p_, nullptr)) {}
    maybe_shared_ptr& operator=(maybe_shared_ptr const&) = default;
    maybe_shared_ptr& operator=(maybe_shared_ptr&& o) noexcept { s_ = std::move(o.s_); p_ = std::exchange(o.p_, nullptr); return *this; }
    T* get() const noexcept { return p_; }
    T& operator*() const noexcept { return *p_; }
    T* operator->() const noexcept { return p_; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    std::shared_ptr<T> ownership() const noexcept { return s_; }
    std::shared_ptr<T> shared() const { return s_; }
    void reset() noexcept { s_.reset(); p_ = nullptr; }
private:
    std::shared_ptr<T> s_ {};
    T* p_ {};
};
template<class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template<class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template<class T, class U> bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template<class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template<class T> std::ostream& operator<<(std::ostream& o, maybe_shared_ptr<T> const& v) { return o << v.get(); }
}
template<class T> struct std::hash<::takatori::util::maybe_shared_ptr<T>> { std::size_t operator()(::takatori::util::maybe_shared_ptr<T> const& v) const noexcept { return std::hash<T*> {}(v.get()); } };
