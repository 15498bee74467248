#pragma once
#include <functional>
#include <utility>
namespace takatori::util {
template<class T> class rvalue_reference_wrapper {
public:
    using type = T;
    constexpr rvalue_reference_wrapper(T&& v) noexcept : p_(std::addressof(v)) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_reference_wrapper(rvalue_reference_wrapper<U> const& o) noexcept : p_(o.ptr()) {}
    constexpr T&& get() const noexcept { return static_cast<T&&>(*p_); }
    constexpr operator T&&() const noexcept { return get(); }
    constexpr T* ptr() const noexcept { return p_; }
    constexpr T* operator->() const noexcept { return p_; }
private:
    T* p_;
};
}
