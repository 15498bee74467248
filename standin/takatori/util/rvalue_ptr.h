#pragma once
#include <cstddef>
#include <memory>
#include <utility>
#include <type_traits>
namespace takatori::util {
template<class T> class rvalue_ptr {
public:
    using element_type = T;
    constexpr rvalue_ptr() noexcept = default;
    constexpr rvalue_ptr(std::nullptr_t) noexcept {}
    constexpr rvalue_ptr(T&& v) noexcept : p_(std::addressof(v)) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_ptr(rvalue_ptr<U> o) noexcept : p_(o.get()) {}
    constexpr T* get() const noexcept { return p_; }
    constexpr T&& operator*() const noexcept { return static_cast<T&&>(*p_); }
    constexpr T* operator->() const noexcept { return p_; }
    constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    constexpr bool has_value() const noexcept { return p_ != nullptr; }
private:
    T* p_ { nullptr };
};
}
