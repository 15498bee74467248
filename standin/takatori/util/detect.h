#pragma once
#include <type_traits>
namespace takatori::util {
namespace impl {
template<class D, class V, template<class...> class Op, class... A> struct detector { using value_t = std::false_type; using type = D; };
template<class D, template<class...> class Op, class... A> struct detector<D, std::void_t<Op<A...>>, Op, A...> { using value_t = std::true_type; using type = Op<A...>; };
}
struct nonesuch {};
template<template<class...> class Op, class... A> using is_detected = typename impl::detector<nonesuch, void, Op, A...>::value_t;
template<template<class...> class Op, class... A> using detect_t = typename impl::detector<nonesuch, void, Op, A...>::type;
template<template<class...> class Op, class... A> inline constexpr bool is_detected_v = is_detected<Op, A...>::value;
}
