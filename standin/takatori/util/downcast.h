#pragma once
#include <takatori/util/prelude.h>
#include <typeinfo>
#include <type_traits>
#include <memory>
namespace takatori::util {
template<class T, class U> T& downcast(U& o) { return dynamic_cast<T&>(o); }
template<class T, class U> T const& downcast(U const& o) { return dynamic_cast<T const&>(o); }
template<class T, class U> T&& downcast(U&& o, std::enable_if_t<!std::is_reference_v<U>>* = nullptr) { return dynamic_cast<T&&>(o); }
template<class T, class U> T* downcast(U* o) { return dynamic_cast<T*>(o); }
template<class T, class U> T const* downcast(U const* o) { return dynamic_cast<T const*>(o); }
template<class T, class U> T& unsafe_downcast(U& o) noexcept { return static_cast<T&>(o); }
template<class T, class U> T const& unsafe_downcast(U const& o) noexcept { return static_cast<T const&>(o); }
template<class T, class U, class = std::enable_if_t<!std::is_reference_v<U>>> T&& unsafe_downcast(U&& o) noexcept { return static_cast<T&&>(o); }
template<class T, class U> T* unsafe_downcast(U* o) noexcept { return static_cast<T*>(o); }
template<class T, class U> T const* unsafe_downcast(U const* o) noexcept { return static_cast<T const*>(o); }
}
