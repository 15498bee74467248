#pragma once
namespace takatori::util {
template<auto K> struct enum_tag_t { explicit enum_tag_t() = default; static constexpr auto tag = K; using type = decltype(K); };
template<auto K> inline constexpr enum_tag_t<K> enum_tag {};
}
