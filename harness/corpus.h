// The reviewed statements, by kind.
#pragma once
#include "common.h"
namespace h {
#define CASE(s, t) { s, t },
inline constexpr variant corpus_query[] = {
#include "cases/query.inc"
};
inline constexpr variant corpus_table[] = {
#include "cases/table.inc"
};
inline constexpr variant corpus_literal[] = {
#include "cases/literal.inc"
};
inline constexpr variant corpus_type[] = {
#include "cases/type.inc"
};
inline constexpr variant corpus_function[] = {
#include "cases/function.inc"
};
inline constexpr variant corpus_dml[] = {
#include "cases/dml.inc"
};
inline constexpr variant corpus_ddl[] = {
#include "cases/ddl.inc"
};
inline constexpr variant corpus_predicate[] = {
#include "cases/predicate.inc"
};
#undef CASE
struct corpus_list { variant const* data; std::size_t size; };
#define L(n) { corpus_##n, sizeof(corpus_##n) / sizeof(variant) }
inline constexpr corpus_list corpus[] = { L(query), L(table), L(literal), L(type), L(function), L(dml), L(ddl), L(predicate) };
#undef L
inline constexpr unsigned corpus_kinds = 8;
/// any statement of one kind
inline variant const& any_of(corpus_list const& l) { return l.data[symx_choice("statement", static_cast<unsigned>(l.size))]; }
/// any statement
inline variant const& any_statement() { return any_of(corpus[symx_choice("kind", corpus_kinds)]); }
/// the text of a template without free parts
inline std::string plain(std::string const& t) {
    std::string r {};
    for (std::size_t i = 0; i < t.size(); ++i) { if ((t[i] == '~' || t[i] == '^') && i + 1 < t.size() && t[i + 1] >= 'a' && t[i + 1] <= 'z') { r += t[i] == '~' ? '7' : 'w'; ++i; } else r += t[i]; }
    return r;
}
} // namespace h
