#pragma once
#include <takatori/util/prelude.h>
#include <type_traits>
#include <utility>
#include "downcast.h"
#include "detect.h"
namespace takatori::util {
namespace impl {
template<class Cb, class... A> using callop_t = decltype(std::declval<Cb>()(std::declval<A>()...));
template<class T, class E> using copy_ref_t = std::conditional_t<std::is_lvalue_reference_v<E>,
    std::conditional_t<std::is_const_v<std::remove_reference_t<E>>, T const&, T&>,
    std::conditional_t<std::is_const_v<std::remove_reference_t<E>>, T const&, T&&>>;
}
/// invokes callback(obj as T, args...)
template<class T, class Cb, class E, class... A>
inline auto polymorphic_callback(Cb&& cb, E&& e, A&&... args) {
    return std::forward<Cb>(cb)(static_cast<impl::copy_ref_t<T, E&&>>(e), std::forward<A>(args)...);
}
}
