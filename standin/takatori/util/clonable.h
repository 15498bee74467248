#pragma once
#include <takatori/util/prelude.h>
#include <memory>
#include <type_traits>
#include <utility>
#include "clone_tag.h"
#include "detect.h"
#include "rvalue_ptr.h"
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
template<class T> inline constexpr bool is_clone_constructible_v = std::is_constructible_v<T, clone_tag_t, T const&> && std::is_constructible_v<T, clone_tag_t, T&&>;
template<class T> using is_clone_constructible = std::bool_constant<is_clone_constructible_v<T>>;
namespace impl {
template<class T> using clone_t = decltype(std::declval<T>().clone());
template<class T> inline constexpr bool has_clone = is_detected_v<clone_t, T const&>;
}
template<class T> inline constexpr bool is_clonable_v = impl::has_clone<T>;
template<class T> std::enable_if_t<impl::has_clone<T>, std::unique_ptr<T>> clone_unique(T const& o) { return std::unique_ptr<T>(o.clone()); }
template<class T> std::enable_if_t<impl::has_clone<T> && !std::is_reference_v<T> && !std::is_const_v<T>, std::unique_ptr<T>> clone_unique(T&& o) { return std::unique_ptr<T>(std::move(o).clone()); }
template<class T> std::unique_ptr<T> clone_unique(T* o) { if (o == nullptr) return {}; return std::unique_ptr<T>(static_cast<T const&>(*o).clone()); }
template<class T> std::unique_ptr<T> clone_unique(T const* o) { if (o == nullptr) return {}; return std::unique_ptr<T>(o->clone()); }
template<class T, class D> std::unique_ptr<T> clone_unique(std::unique_ptr<T, D> const& o) { if (!o) return {}; return std::unique_ptr<T>(static_cast<T const&>(*o).clone()); }
template<class T, class D> std::unique_ptr<T> clone_unique(std::unique_ptr<T, D>& o) { if (!o) return {}; return std::unique_ptr<T>(static_cast<T const&>(*o).clone()); }
template<class T, class D> std::unique_ptr<T> clone_unique(std::unique_ptr<T, D>&& o) { if (!o) return {}; return std::unique_ptr<T>(std::move(*o).clone()); }
template<class T> std::unique_ptr<T> clone_unique(rvalue_ptr<T> o) { if (!o) return {}; return std::unique_ptr<T>((*o).clone()); }
template<class T> std::unique_ptr<T> clone_unique(rvalue_reference_wrapper<T> o) { return std::unique_ptr<T>(o.get().clone()); }
template<class T> std::enable_if_t<impl::has_clone<std::remove_cv_t<std::remove_reference_t<T>>>, std::shared_ptr<std::remove_cv_t<std::remove_reference_t<T>>>> clone_shared(T&& o) {
    return std::shared_ptr<std::remove_cv_t<std::remove_reference_t<T>>>(std::forward<T>(o).clone()); }
template<class T> std::shared_ptr<T> clone_shared(rvalue_ptr<T> o) { if (!o) return {}; return std::shared_ptr<T>((*o).clone()); }
template<class T> std::shared_ptr<T> clone_shared(rvalue_reference_wrapper<T> o) { return std::shared_ptr<T>(o.get().clone()); }
}
