// Names of the enumerations: total, unique, equal to the documented spelling, and
// streamed as the same text. Oracle: enums.inc (reviewed table of spellings).
#include "../engine/symx.h"
#include <cstdlib>
#include <ostream>
#include <sstream>
#include "enums_inc.h"
namespace mz = mizugaki;
namespace {
struct name_of { std::uint64_t value; char const* text; };
template<class E> std::uint64_t raw(E e) { return static_cast<std::uint64_t>(static_cast<std::underlying_type_t<E>>(e)); }
template<class E> E as(std::uint64_t v) { return static_cast<E>(static_cast<std::underlying_type_t<E>>(v)); }
struct table { char const* name; name_of const* list; unsigned size; std::string_view (*text)(std::uint64_t); std::string (*stream)(std::uint64_t); };
template<class E> std::string_view text_of(std::uint64_t v) { return to_string_view(as<E>(v)); }
template<class E> std::string stream_of(std::uint64_t v) { std::ostringstream s; s << as<E>(v); return s.str(); }
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define ENUM(ns, e) namespace CAT(ns_, __LINE__) { }
#undef ENUM
// one list for each enumeration
#define ENUM(ns, e) template<> struct def<ns::e> { using type = ns::e; static constexpr char const* name = #ns "::" #e; static constexpr name_of list[] = {
#define NAME(n, s) { static_cast<std::uint64_t>(type::n), s },
#define END }; };
template<class E> struct def;
#include "enums.inc"
#undef ENUM
#undef NAME
#undef END
#define ENUM(ns, e) { def<ns::e>::name, def<ns::e>::list, sizeof(def<ns::e>::list) / sizeof(name_of), text_of<ns::e>, stream_of<ns::e> },
#define NAME(n, s)
#define END
table const tables[] = {
#include "enums.inc"
};
bool eq(std::string_view a, char const* b) { std::size_t n = __builtin_strlen(b); return a.size() == n && __builtin_memcmp(a.data(), b, n) == 0; }
table const& choose() {
    constexpr unsigned n = sizeof(tables) / sizeof(tables[0]);
    return tables[symx_choice("enumeration", n)];
}
std::uint64_t member(table const& t, char const* label) {
    std::uint64_t v = symx_bits(label, 16);
    bool in = false;
    for (unsigned i = 0; i < t.size; ++i) in |= v == t.list[i].value;
    symx_assume(in);
    return v;
}
}
SYMX_ENTRY(names) {
    auto& t = choose();
    auto v = member(t, "value");
    auto s = t.text(v);
    for (unsigned i = 0; i < t.size; ++i) if (t.list[i].value == v) symx_assert(eq(s, t.list[i].text), "an enumerator is printed with another spelling than its own");
    symx_reach("named");
}
SYMX_ENTRY(unique) {
    auto& t = choose();
    auto v = member(t, "first"), w = member(t, "second");
    auto a = t.text(v), b = t.text(w);
    bool same = a.size() == b.size() && __builtin_memcmp(a.data(), b.data(), a.size()) == 0;
    symx_assert(same == (v == w), "two enumerators share one spelling");
    for (unsigned i = 0; i < t.size; ++i) for (unsigned j = 0; j < i; ++j) symx_assert(t.list[i].value != t.list[j].value, "two enumerators share one value");
    symx_reach("distinct");
}
SYMX_ENTRY(stream) {
    auto& t = choose();
    auto v = member(t, "value");
    auto s = t.stream(v); auto u = t.text(v);
    symx_assert(s.size() == u.size() && __builtin_memcmp(s.data(), u.data(), u.size()) == 0, "streaming an enumerator prints another text than its name");
    symx_reach("streamed");
}
