#pragma once
#include <memory>
#include <optional>
#include <type_traits>
#include <utility>
#include "clone_tag.h"
#include "optional_ptr.h"
#include "rvalue_ptr.h"
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
namespace impl_clone {
template<class T, class = void> struct has_clone : std::false_type {};
template<class T> struct has_clone<T, std::void_t<decltype(std::declval<T const&>().clone())>> : std::true_type {};
template<class T> inline std::unique_ptr<T> do_clone(T const& v) {
    if constexpr (has_clone<T>::value) { return std::unique_ptr<T> { v.clone() }; }
    else if constexpr (is_clone_constructible_v<T>) { return std::make_unique<T>(clone_tag, v); }
    else { return std::make_unique<T>(v); }
}
template<class T> inline std::unique_ptr<T> do_clone_move(T& v) {
    if constexpr (has_clone<T>::value) { return std::unique_ptr<T> { std::move(v).clone() }; }
    else if constexpr (is_clone_constructible_v<T>) { return std::make_unique<T>(clone_tag, std::move(v)); }
    else { return std::make_unique<T>(std::move(v)); }
}
}
template<class T> struct is_clonable : impl_clone::has_clone<T> {};
template<class T> inline constexpr bool is_clonable_v = is_clonable<T>::value;

template<class T> inline std::unique_ptr<T> clone_unique(T const& v) { return impl_clone::do_clone<T>(v); }
template<class T, class = std::enable_if_t<!std::is_lvalue_reference_v<T> && !std::is_const_v<T>>>
inline std::unique_ptr<T> clone_unique(T&& v) { return impl_clone::do_clone_move<T>(v); }
template<class T> inline std::unique_ptr<T> clone_unique(T const* v) { return v ? impl_clone::do_clone<T>(*v) : nullptr; }
template<class T> inline std::unique_ptr<T> clone_unique(T* v) { return v ? impl_clone::do_clone<T>(*v) : nullptr; }
template<class T, class D> inline std::unique_ptr<T> clone_unique(std::unique_ptr<T, D> const& v) { return v ? impl_clone::do_clone<T>(*v) : nullptr; }
template<class T, class D> inline std::unique_ptr<T> clone_unique(std::unique_ptr<T, D>&& v) { return v ? impl_clone::do_clone_move<T>(*v) : nullptr; }
template<class T> inline std::unique_ptr<T> clone_unique(rvalue_ptr<T> v) { return v ? impl_clone::do_clone_move<T>(*v) : nullptr; }
template<class T> inline std::unique_ptr<T> clone_unique(rvalue_ptr<T> const&& v) { return v ? impl_clone::do_clone_move<T>(*v) : nullptr; }
template<class T> inline std::unique_ptr<T> clone_unique(rvalue_reference_wrapper<T> v) { return impl_clone::do_clone_move<T>(v.as_ref()); }
template<class T> inline std::unique_ptr<std::remove_const_t<T>> clone_unique(optional_ptr<T> v) { return v ? impl_clone::do_clone<std::remove_const_t<T>>(*v) : nullptr; }
template<class T> inline std::shared_ptr<T> clone_shared(T const& v) { return clone_unique(v); }
template<class T, class = std::enable_if_t<!std::is_lvalue_reference_v<T> && !std::is_const_v<T>>>
inline std::shared_ptr<T> clone_shared(T&& v) { return clone_unique(std::move(v)); }
template<class T> inline std::shared_ptr<T> clone_shared(rvalue_ptr<T> const& v) { return v ? clone_unique(std::move(*v)) : nullptr; }
template<class T> inline std::shared_ptr<T> clone_shared(rvalue_ptr<T>& v) { return v ? clone_unique(std::move(*v)) : nullptr; }
template<class T> inline std::shared_ptr<T> clone_shared(T const* v) { return clone_unique(v); }
}
