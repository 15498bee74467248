#pragma once
#include <functional>
#include <utility>
namespace takatori::util {
class finalizer {
public:
    finalizer() = default;
    finalizer(std::function<void()> f) : f_(std::move(f)) {}
    template<class F, class = std::enable_if_t<std::is_invocable_v<F&>>> finalizer(F f) : f_(std::move(f)) {}
    ~finalizer() { if (f_) f_(); }
    finalizer(finalizer const&) = delete;
    finalizer& operator=(finalizer const&) = delete;
    finalizer(finalizer&& o) noexcept : f_(std::move(o.f_)) { o.f_ = nullptr; }
    finalizer& operator=(finalizer&& o) noexcept { f_ = std::move(o.f_); o.f_ = nullptr; return *this; }
    void cancel() { f_ = nullptr; }
private:
    std::function<void()> f_ {};
};
}
