#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include "optional_ptr.h"
namespace takatori::util {
template<class T> class maybe_shared_ptr {
public:
    using element_type = T; using value_type = T; using pointer = T*;
    maybe_shared_ptr() noexcept = default;
    maybe_shared_ptr(std::nullptr_t) noexcept {}
    maybe_shared_ptr(T* p) noexcept : raw_(p) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::shared_ptr<U> p) noexcept : shared_(std::move(p)) { raw_ = shared_.get(); }
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : raw_(o.get()), shared_(o.ownership()) {}
    T* get() const noexcept { return raw_; }
    T& operator*() const noexcept { return *raw_; }
    T* operator->() const noexcept { return raw_; }
    explicit operator bool() const noexcept { return raw_ != nullptr; }
    std::shared_ptr<T> ownership() const noexcept { return shared_; }
    void reset() noexcept { raw_ = nullptr; shared_.reset(); }
private:
    T* raw_ { nullptr };
    std::shared_ptr<T> shared_ {};
};
template<class T, class U> bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template<class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template<class T> bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return !a; }
template<class T> bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return !!a; }
}
