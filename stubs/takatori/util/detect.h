#pragma once
#include <type_traits>
namespace takatori::util {
namespace impl_detect {
struct none {};
template<class D, class V, template<class...> class Op, class... A>
struct detector { using type = D; using value_t = std::false_type; };
template<class D, template<class...> class Op, class... A>
struct detector<D, std::void_t<Op<A...>>, Op, A...> { using type = Op<A...>; using value_t = std::true_type; };
}
template<template<class...> class Op, class... A>
using is_detected = typename impl_detect::detector<impl_detect::none, void, Op, A...>::value_t;
template<template<class...> class Op, class... A>
inline constexpr bool is_detected_v = is_detected<Op, A...>::value;
template<template<class...> class Op, class... A>
using detect_t = typename impl_detect::detector<impl_detect::none, void, Op, A...>::type;
template<class D, template<class...> class Op, class... A>
using detect_or_t = typename impl_detect::detector<D, void, Op, A...>::type;
}
