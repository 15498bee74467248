#pragma once
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <ostream>
namespace takatori::util {
template<class T> class optional_ptr {
public:
    using element_type = T; using value_type = T; using pointer = T*; using reference = T&;
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {}
    constexpr explicit optional_ptr(T* p) noexcept : p_(p) {}
    constexpr optional_ptr(T& r) noexcept : p_(std::addressof(r)) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> constexpr optional_ptr(optional_ptr<U> const& o) noexcept : p_(o.get()) {}
    constexpr T* get() const noexcept { return p_; }
    constexpr T& operator*() const noexcept { return *p_; }
    constexpr T* operator->() const noexcept { return p_; }
    constexpr T& value() const { if (!p_) throw std::out_of_range("optional_ptr"); return *p_; }
    constexpr bool has_value() const noexcept { return p_ != nullptr; }
    constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    void reset() noexcept { p_ = nullptr; }
    template<class F> T& or_else(F&& f) const { if (p_) return *p_; f(); std::abort(); }
private:
    T* p_ { nullptr };
};
template<class T> optional_ptr(T&) -> optional_ptr<T>;
template<class T, class U> constexpr bool operator==(optional_ptr<T> a, optional_ptr<U> b) { return a.get() == b.get(); }
template<class T, class U> constexpr bool operator!=(optional_ptr<T> a, optional_ptr<U> b) { return a.get() != b.get(); }
template<class T> constexpr bool operator==(optional_ptr<T> a, std::nullptr_t) { return !a; }
template<class T> constexpr bool operator!=(optional_ptr<T> a, std::nullptr_t) { return !!a; }
}
