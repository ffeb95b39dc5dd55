#pragma once
#include <type_traits>
#include <utility>
#include "optional_ptr.h"
namespace takatori::util {
template<class T, class U> inline T& unsafe_downcast(U& v) noexcept { return static_cast<T&>(v); }
template<class T, class U> inline T const& unsafe_downcast(U const& v) noexcept { return static_cast<T const&>(v); }
template<class T, class U, class = std::enable_if_t<!std::is_lvalue_reference_v<U>>> inline T&& unsafe_downcast(U&& v) noexcept { return static_cast<T&&>(v); }
template<class T, class U> inline T* unsafe_downcast(U* v) noexcept { return static_cast<T*>(v); }
template<class T, class U> inline T const* unsafe_downcast(U const* v) noexcept { return static_cast<T const*>(v); }
template<class T, class U> inline T& downcast(U& v) { return dynamic_cast<T&>(v); }
template<class T, class U> inline T const& downcast(U const& v) { return dynamic_cast<T const&>(v); }
template<class T, class U> inline T* downcast(U* v) noexcept { return dynamic_cast<T*>(v); }
template<class T, class U> inline T const* downcast(U const* v) noexcept { return dynamic_cast<T const*>(v); }
}
