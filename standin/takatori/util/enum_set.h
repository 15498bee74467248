#pragma once
#include <takatori/util/prelude.h>
#include <bitset>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template<class E, E Min, E Max> class enum_set {
    using u_ = std::underlying_type_t<E>;
    static constexpr std::size_t n_ = static_cast<std::size_t>(static_cast<u_>(Max)) - static_cast<std::size_t>(static_cast<u_>(Min)) + 1;
    static constexpr std::size_t w_ = (n_ + 63) / 64;
public:
    using value_type = E; using size_type = std::size_t;
    static constexpr E min_value = Min; static constexpr E max_value = Max;
    constexpr enum_set() = default;
    constexpr enum_set(std::initializer_list<E> l) { for (auto e : l) insert(e); }
    template<class... T, class = std::enable_if_t<sizeof...(T) != 0 && (std::is_same_v<T, E> && ...)>>
    constexpr enum_set(T... v) { (insert(v), ...); }
    constexpr bool contains(E v) const noexcept { if (!valid(v)) return false; auto i = idx(v); return ((b_[i / 64] >> (i % 64)) & 1U) != 0; }
    constexpr bool operator[](E v) const noexcept { return contains(v); }
    constexpr enum_set& insert(E v) noexcept { if (valid(v)) { auto i = idx(v); b_[i / 64] |= std::uint64_t { 1 } << (i % 64); } return *this; }
    constexpr enum_set& erase(E v) noexcept { if (valid(v)) { auto i = idx(v); b_[i / 64] &= ~(std::uint64_t { 1 } << (i % 64)); } return *this; }
    constexpr void clear() noexcept { for (auto& w : b_) w = 0; }
    constexpr bool empty() const noexcept { for (auto w : b_) if (w) return false; return true; }
    constexpr std::size_t size() const noexcept { std::size_t r = 0; for (std::size_t i = 0; i < n_; ++i) r += (b_[i / 64] >> (i % 64)) & 1U; return r; }
    constexpr std::size_t capacity() const noexcept { return n_; }
    class iterator {
    public:
        using iterator_category = std::forward_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = void; using reference = E;
        constexpr iterator(enum_set const* s, std::size_t i) : s_(s), i_(i) { skip(); }
        constexpr E operator*() const { return at(i_); }
        constexpr iterator& operator++() { ++i_; skip(); return *this; }
        constexpr bool operator==(iterator const& o) const { return i_ == o.i_; }
        constexpr bool operator!=(iterator const& o) const { return i_ != o.i_; }
    private:
        constexpr void skip() { while (i_ < n_ && !s_->contains(at(i_))) ++i_; }
        enum_set const* s_; std::size_t i_;
    };
    constexpr iterator begin() const { return { this, 0 }; }
    constexpr iterator end() const { return { this, n_ }; }
    friend constexpr bool operator==(enum_set const& a, enum_set const& b) { for (std::size_t i = 0; i < w_; ++i) if (a.b_[i] != b.b_[i]) return false; return true; }
    friend constexpr bool operator!=(enum_set const& a, enum_set const& b) { return !(a == b); }
    friend constexpr enum_set operator|(enum_set a, enum_set const& b) { for (std::size_t i = 0; i < w_; ++i) a.b_[i] |= b.b_[i]; return a; }
    friend constexpr enum_set operator&(enum_set a, enum_set const& b) { for (std::size_t i = 0; i < w_; ++i) a.b_[i] &= b.b_[i]; return a; }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& s) {
        out << "{"; bool first = true;
        for (auto e : s) { if (!first) out << ", "; first = false; out << e; }
        return out << "}";
    }
private:
    static constexpr bool valid(E v) { return static_cast<u_>(v) >= static_cast<u_>(Min) && static_cast<u_>(v) <= static_cast<u_>(Max); }
    static constexpr std::size_t idx(E v) { return static_cast<std::size_t>(static_cast<u_>(v)) - static_cast<std::size_t>(static_cast<u_>(Min)); }
    static constexpr E at(std::size_t i) { return static_cast<E>(static_cast<u_>(static_cast<std::size_t>(static_cast<u_>(Min)) + i)); }
    std::uint64_t b_[w_] {};
};
}
