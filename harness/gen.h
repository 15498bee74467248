// Pairs of SQL text and the tree it stands for, composed from symbolic choices.
#pragma once
#include "common.h"
namespace h {
struct piece { std::string sql, tree; };
inline piece operator+(piece a, piece const& b) { a.sql += b.sql; a.tree += b.tree; return a; }
template<std::size_t N> piece any(char const* label, variant const (&l)[N]) { auto& v = choose(label, l); return { v.sql, v.tree }; }
inline std::string letter(char c) { return { c, '1' }; }
/// a name of one or more parts
inline piece name(char c, unsigned form) {
    std::string n = letter(c);
    switch (form) {
        case 0: return { n, n };
        case 1: return { "s1." + n, "qualified{last:" + n + " qualifier:s1}" };
        case 2: return { "t1 . s1 . " + n, "qualified{last:" + n + " qualifier:qualified{last:s1 qualifier:t1}}" };
        default: return { "\"" + n + "\"\"^n\"", "\"" + n + "\"^n\"" };
    }
}
inline piece any_name(char c, unsigned forms = 3) { return name(c, symx_choice("name", forms)); }
/// values whose trees look like nothing else; the letter tells them apart
constexpr unsigned value_forms = 14;
inline piece value(char c, unsigned form) {
    std::string n = letter(c);
    switch (form) {
        case 0: return { n, "$" + n };
        case 1: return { std::string { "~" } + c, std::string { "#~" } + c };
        case 2: return { n + " + 1", "binary_expression{left:$" + n + " operator_kind:plus right:#1}" };
        case 3: return { "'" + n + "^v'", "'" + n + "^v'" };
        case 4: return { n + "(x1, 2)", "function_invocation{name:" + n + " arguments:[$x1 #2]}" };
        case 5: return { "(SELECT " + n + ")", "subquery{query:query{elements:[column{value:$" + n + "}]} context_kind:scalar}" };
        case 6: return { "(" + n + " - x1)", "binary_expression{left:$" + n + " operator_kind:minus right:$x1}" };
        case 7: return { "-" + n, "unary_expression{operator_kind:minus operand:$" + n + "}" };
        case 8: return { "CASE WHEN " + n + " THEN 1 END", "case_expression{when_clauses:[{when:$" + n + " result:#1}]}" };
        case 9: return { "x1." + n, "$qualified{last:" + n + " qualifier:x1}" };
        case 10: return { "CAST(" + n + " AS INT)", "cast_expression{operator_kind:cast operand:$" + n + " type:integer{}}" };
        case 11: return { ":" + n, "host_parameter_reference{name::" + n + "}" };
        case 12: return { n + "[1]", "binary_expression{left:$" + n + " operator_kind:element_reference right:#1}" };
        default: return { n + " || 'x' * 2", "binary_expression{left:$" + n + " operator_kind:concatenation right:binary_expression{left:'x' operator_kind:asterisk right:#2}}" };
    }
}
inline piece any_value(char c, unsigned forms = value_forms) { return value(c, symx_choice("value", forms)); }
/// conditions; only where a whole value expression may stand
constexpr unsigned condition_forms = 8;
inline piece condition(char c, unsigned form) {
    std::string n = letter(c);
    switch (form) {
        case 0: return { n, "$" + n };
        case 1: return { n + " = 1", "comparison_predicate{left:$" + n + " operator_kind:equals right:#1}" };
        case 2: return { n + " AND x1", "binary_expression{left:$" + n + " operator_kind:and right:$x1}" };
        case 3: return { "NOT " + n + " OR x1", "binary_expression{left:unary_expression{operator_kind:not operand:$" + n + "} operator_kind:or right:$x1}" };
        case 4: return { n + " IS NOT NULL", "binary_expression{left:$" + n + " operator_kind:is_not right:null{}}" };
        case 5: return { n + " BETWEEN 1 AND 2", "between_predicate{target:$" + n + " left:#1 right:#2}" };
        case 6: return { "EXISTS (TABLE " + n + ")", "table_predicate{operator_kind:exists operand:@" + n + "}" };
        default: return { n + " IN (1, 2)", "in_predicate{left:$" + n + " right:table_value_constructor{elements:[#1 #2]}}" };
    }
}
inline piece any_condition(char c, unsigned forms = condition_forms) { return condition(c, symx_choice("condition", forms)); }
/// queries
constexpr unsigned query_forms = 6;
inline piece query(char c, unsigned form) {
    std::string n = letter(c);
    switch (form) {
        case 0: return { "TABLE " + n, "@" + n };
        case 1: return { "SELECT " + n, "query{elements:[column{value:$" + n + "}]}" };
        case 2: return { "VALUES (" + n + ", 1), (2, x1)", "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[$" + n + " #1]} value_constructor{operator_kind:row elements:[#2 $x1]}]}" };
        case 3: return { "SELECT * FROM " + n + " WHERE x1 LIMIT 3", "query{elements:[asterisk{}] from:[@" + n + "] where:$x1 limit:#3}" };
        case 4: return { "TABLE " + n + " UNION TABLE x1", "binary_expression{left:@" + n + " operator_kind:union right:@x1}" };
        default: return { "WITH x1 AS (TABLE " + n + ") TABLE x1", "with_expression{elements:[{name:x1 expression:@" + n + "}] expression:@x1}" };
    }
}
inline piece any_query(char c, unsigned forms = query_forms) { return query(c, symx_choice("query", forms)); }
/// types
inline piece type(unsigned form) {
    static constexpr variant l[] = {
        { "INT", "integer{}" }, { "INTEGER", "integer{}" }, { "CHAR", "character{}" }, { "CHARACTER", "character{}" }, { "CHAR(~x)", "character{length:~x}" }, { "CHARACTER (~x)", "character{length:~x}" },
        { "VARCHAR", "character_varying{}" }, { "VARCHAR(~x)", "character_varying{length:~x}" }, { "VARCHAR(*)", "character_varying{length:*}" }, { "CHAR VARYING (*)", "character_varying{length:*}" }, { "CHARACTER VARYING", "character_varying{}" }, { "CHARACTER VARYING (~x)", "character_varying{length:~x}" },
        { "BINARY", "octet{type_kind:octet}" }, { "BINARY(~x)", "octet{type_kind:octet length:~x}" }, { "VARBINARY", "octet_varying{type_kind:octet_varying}" }, { "VARBINARY(~x)", "octet_varying{type_kind:octet_varying length:~x}" }, { "BINARY VARYING(*)", "octet_varying{type_kind:octet_varying length:*}" },
        { "DECIMAL", "decimal{}" }, { "DEC(~x)", "decimal{precision:~x}" }, { "NUMERIC(~x, ~y)", "numeric{precision:~x scale:~y}" }, { "DECIMAL(*, ~y)", "decimal{precision:* scale:~y}" }, { "DECIMAL(~x, *)", "decimal{precision:~x scale:*}" }, { "NUMERIC(*)", "numeric{precision:*}" },
        { "INT(~x)", "binary_integer{precision:~x}" }, { "INTEGER(~x)", "binary_integer{precision:~x}" }, { "TINYINT", "tiny_integer{}" }, { "SMALLINT", "small_integer{}" }, { "BIGINT", "big_integer{}" }, { "FLOAT", "float{}" }, { "FLOAT(~x)", "binary_float{precision:~x}" }, { "REAL", "real{}" }, { "DOUBLE PRECISION", "double_precision{}" }, { "DOUBLE", "double_precision{}" },
        { "BOOLEAN", "boolean{}" }, { "DATE", "date{}" }, { "TIME", "time{}" }, { "TIME WITH TIME ZONE", "time{has_time_zone:yes}" }, { "TIME WITHOUT TIME ZONE", "time{}" }, { "TIMESTAMP", "timestamp{}" }, { "TIMESTAMP WITH TIME ZONE", "timestamp{has_time_zone:yes}" }, { "TIMESTAMP WITHOUT TIME ZONE", "timestamp{}" }, { "INTERVAL", "interval{}" },
        { "BLOB", "binary_large_object{}" }, { "BINARY LARGE OBJECT", "binary_large_object{}" }, { "CLOB", "character_large_object{}" }, { "CHAR LARGE OBJECT", "character_large_object{}" }, { "CHARACTER LARGE OBJECT", "character_large_object{}" },
        { "u1", "user_defined{name:u1}" }, { "s1.u1", "user_defined{name:qualified{last:u1 qualifier:s1}}" }, { "\"u^t\"", "user_defined{name:\"u^t\"}" },
        { "ROW (f1 INT)", "row{elements:[{name:f1 type:integer{}}]}" }, { "ROW (f1 INT COLLATE c1, g1 ROW (h1 DATE))", "row{elements:[{name:f1 type:integer{} collation:c1} {name:g1 type:row{elements:[{name:h1 type:date{}}]}}]}" },
        { "INT ARRAY[]", "collection{element:integer{}}" }, { "CHAR(~x)[~y]", "collection{element:character{length:~x} length:~y}" }, { "u1 ARRAY[*]", "collection{element:user_defined{name:u1} length:*}" }, { "INT[~x] ARRAY[~y]", "collection{element:collection{element:integer{} length:~x} length:~y}" },
    };
    static_assert(sizeof(l) / sizeof(l[0]) == 56);
    return { l[form].sql, l[form].tree };
}
constexpr unsigned type_forms = 56;
inline piece any_type() { return type(symx_choice("type", type_forms)); }
inline void expect(piece const& p, char const* msg) { expect(p.sql, p.tree, msg); symx_reach("done"); }
inline piece operator+(piece a, variant const& v) { a.sql += v.sql; a.tree += v.tree; return a; }
/// k elements, separated by a comma and a blank in both
template<class F> piece list(unsigned k, F f) { piece r {}; for (unsigned i = 0; i < k; ++i) { auto p = f(i); if (i) { r.sql += ", "; r.tree += ' '; } r = r + p; } return r; }
inline piece in(char const* sl, char const* tl, piece const& p, char const* sr, char const* tr) { return { sl + p.sql + sr, tl + p.tree + tr }; }
} // namespace h
