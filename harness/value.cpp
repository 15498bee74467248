// Literals, types, functions and other primaries.
#include "gen.h"
#include <mizugaki/ast/scalar/cast_expression.h>
#include <mizugaki/ast/scalar/extract_expression.h>
#include <mizugaki/ast/query/query.h>
#include <mizugaki/ast/query/select_column.h>
#include <mizugaki/ast/statement/select_statement.h>
#include <mizugaki/ast/type/character_string.h>
#include <mizugaki/ast/type/octet_string.h>
#include <mizugaki/ast/type/decimal.h>
#include <mizugaki/ast/type/binary_numeric.h>
#include <mizugaki/ast/type/collection.h>
using namespace h;
namespace {
constexpr char const* m = "the value is understood as written";
/// a place for one value, as a template with @
constexpr variant places[] = {
    { "SELECT @", "query{elements:[column{value:@}]}" }, { "VALUES (a1, @, b1)", "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[$a1 @ $b1]}]}" },
    { "SELECT a1 FROM b1 WHERE @ = c1", "query{elements:[column{value:$a1}] from:[*b1] where:comparison_predicate{left:@ operator_kind:equals right:$c1}}" }, { "SELECT f1(@, a1)", "query{elements:[column{value:function_invocation{name:f1 arguments:[@ $a1]}}]}" },
    { "UPDATE a1 SET b1 = @ WHERE c1", "update_statement{table_name:a1 elements:[{target:b1 value:@}] where:$c1}" }, { "CREATE TABLE a1 (b1 INT DEFAULT @)", "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:default_clause{expression:@}}]}]}" },
    { "SELECT * FROM a1 LIMIT @", "query{elements:[asterisk{}] from:[*a1] limit:@}" }, { "SELECT a1 BETWEEN @ AND b1", "query{elements:[column{value:between_predicate{target:$a1 left:@ right:$b1}}]}" },
    { "SELECT CASE @ WHEN a1 THEN b1 END", "query{elements:[column{value:case_expression{operand:@ when_clauses:[{when:$a1 result:$b1}]}}]}" }, { "SELECT ARRAY[@]", "query{elements:[column{value:value_constructor{operator_kind:array elements:[@]}}]}" },
};
constexpr unsigned place_count = sizeof(places) / sizeof(places[0]);
/// a template holding *x for a table: the tree text is @x, which is not the place of the value
std::string table_marks(std::string t) { for (auto& c : t) if (c == '*') c = '@'; return t; }
struct around { std::string before, after; };
around cut(char const* t, bool sql) { std::string s { t }; auto p = s.find('@'); auto b = s.substr(0, p), a = s.substr(p + 1); if (!sql) { b = table_marks(b); a = table_marks(a); } return { expand(b, sql), expand(a, sql) }; }
/// the value, given as finished texts, in a place
void accepted(unsigned place, std::string const& sql, std::string const& tree, char const* msg) {
    auto s = cut(places[place].sql, true), t = cut(places[place].tree, false); auto o = run(s.before + sql + s.after);
    symx_assert(o.ok, msg); if (o.ok) same(o.text, t.before + tree + t.after, msg); symx_reach("done");
}
void accepted(piece const& p) { accepted(symx_choice("place", place_count), expand(p.sql, true), expand(p.tree, false), m); }
std::string digits(unsigned n, char const* label) { std::string s {}; for (unsigned i = 0; i < n; ++i) { auto b = static_cast<unsigned char>(symx_bits(label, 4)); s += static_cast<char>('0' + (b < 10 ? b : b - 6)); } return s; }
/// a quoted text of n parts, each a doubled quote or any byte but a quote
std::string quoted(unsigned n) { std::string s { "'" }; for (unsigned i = 0; i < n; ++i) { if (symx_choice("quote", 2)) { s += "''"; continue; } auto c = symx_byte("byte"); symx_assume(c != '\''); s += static_cast<char>(c); } return s + "'"; }
}
// ---- literals
SYMX_ENTRY(numbers) {
    auto n = 1 + symx_choice("digits", 5); auto f = symx_choice("fraction", 4); auto e = symx_choice("exponent", 4); auto g = symx_choice("sign", 3);
    std::string s = digits(n, "digit"); if (f) s += "." + digits(f, "fraction digit");
    if (e) { s += static_cast<char>('E' ^ (symx_bits("case", 1) << 5)); if (e > 1) s += e == 2 ? '+' : '-'; s += digits(1 + e % 2, "exponent digit"); }
    std::string t = e ? "approximate_numeric{" + std::string { g == 0 ? "" : g == 1 ? "sign:plus " : "sign:minus " } + "unsigned_value:" + s + "}" : std::string { g == 0 ? "#" : g == 1 ? "#+" : "#-" } + s;
    accepted(symx_choice("place", 3), (g == 0 ? "" : g == 1 ? "+" : "- ") + s, t, "a number is kept digit by digit, with its sign");
}
SYMX_ENTRY(long_numbers) { static constexpr unsigned l[] = { 8, 19, 20, 21, 40 }; auto s = digits(l[symx_choice("digits", 5)], "digit"); if (symx_choice("point", 2)) s.insert(s.size() / 2, "."); accepted(symx_choice("place", place_count), s, "#" + s, "a number is kept digit by digit"); }
SYMX_ENTRY(strings) { auto s = quoted(symx_choice("size", 4)); accepted(symx_choice("place", 3), s, s, "a character string is kept byte by byte"); }
SYMX_ENTRY(strings_places) { auto s = quoted(symx_choice("size", 3)); accepted(symx_choice("place", place_count), s, s, "a character string is kept byte by byte"); }
SYMX_ENTRY(strings5) { auto s = quoted(5); accepted(0, s, s, "a character string is kept byte by byte"); }
SYMX_ENTRY(hex) { auto s = quoted(symx_choice("size", 4)); std::string x { static_cast<char>('X' ^ (symx_bits("case", 1) << 5)) }; accepted(symx_choice("place", 3), x + s, "hex_string{value:" + s + "}", "a hexadecimal string is kept byte by byte"); }
SYMX_ENTRY(concatenations) {
    auto k = 1 + symx_choice("parts", 3); bool x = symx_choice("hex", 2) != 0; auto first = quoted(symx_choice("size", 2)); std::string s = (x ? "x" : "") + first, t = std::string { x ? "hex_string" : "character_string" } + "{value:" + first + " concatenations:[";
    for (unsigned i = 0; i < k; ++i) { auto q = quoted(symx_choice("size", 2)); s += expand(" ", true) + q; if (i) t += ' '; t += q; }
    accepted(symx_choice("place", 2), s, t + "]}", "adjacent strings are kept in order");
}
SYMX_ENTRY(temporal) {
    static constexpr variant l[] = { { "DATE ", "date{value:" }, { "TIME ", "time{value:" }, { "TIME WITHOUT TIME ZONE ", "time{value:" }, { "TIME WITH TIME ZONE ", "time_with_time_zone{value:" }, { "TIMESTAMP ", "timestamp{value:" }, { "TIMESTAMP WITHOUT TIME ZONE ", "timestamp{value:" }, { "TIMESTAMP WITH TIME ZONE ", "timestamp_with_time_zone{value:" }, { "INTERVAL ", "interval{value:" }, { "INTERVAL + ", "interval{sign:plus value:" }, { "INTERVAL - ", "interval{sign:minus value:" } };
    auto& v = choose("kind", l); auto q = quoted(symx_choice("size", 3)); accepted(symx_choice("place", place_count), expand(v.sql, true) + q, v.tree + q + "}", m);
}
SYMX_ENTRY(words) { static constexpr variant l[] = { { "TRUE", "boolean{value:TRUE}" }, { "FALSE", "boolean{value:FALSE}" }, { "UNKNOWN", "boolean{value:UNKNOWN}" }, { "NULL", "null{}" }, { "DEFAULT", "default{}" }, { "ARRAY[]", "empty{}" }, { "ARRAY [ ]", "empty{}" }, { "?", "placeholder_reference{index:1}" }, { ":v1", "host_parameter_reference{name::v1}" } }; accepted(any("word", l)); }
SYMX_ENTRY(literal_needs) {
    static char const* const l[] = { "DATE", "DATE 1", "DATE a1 b1 c1", "TIME WITH ZONE '1'", "TIME ZONE '1'", "INTERVAL * '1'", "INTERVAL + + '1'", "'a' X'1'", "X '1' b1 c1", "1.", ".5", "1e+", "1 2", "TRUE FALSE", "ARRAY", "ARRAY[,]", "ARRAY[1,]", ": a1", "? ?", "NULL NULL" };
    reject(std::string { "SELECT " } + l[symx_choice("literal", 20)] + ", z1", "a literal has exactly its parts"); symx_reach("done");
}
// ---- types
SYMX_ENTRY(types) {
    static constexpr variant l[] = { { "SELECT CAST(a1 AS ", "query{elements:[column{value:cast_expression{operator_kind:cast operand:$a1 type:" }, { "SELECT TREAT(a1 AS ", "query{elements:[column{value:cast_expression{operator_kind:treat operand:$a1 type:" }, { "SELECT (a1 AS ", "query{elements:[column{value:cast_expression{operator_kind:generalize operand:$a1 type:" }, { "SELECT f1(a1 AS ", "query{elements:[column{value:function_invocation{name:f1 arguments:[cast_expression{operator_kind:generalize operand:$a1 type:" }, { "SELECT a1::", "query{elements:[column{value:cast_expression{operator_kind:cast operand:$a1 type:" }, { "CREATE TABLE a1 (b1 ", "table_definition{name:a1 elements:[column_definition{name:b1 type:" }, { "CREATE SEQUENCE a1 AS ", "sequence_definition{name:a1 type:" }, { "SELECT CAST(a1 AS ROW (z1 ", "query{elements:[column{value:cast_expression{operator_kind:cast operand:$a1 type:row{elements:[{name:z1 type:" }, { "CREATE TABLE a1 (b1 INT, c1 ", "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{}} column_definition{name:c1 type:" }, { "CREATE TABLE a1 (b1 ", "table_definition{name:a1 elements:[column_definition{name:b1 type:" } };
    static constexpr variant r[] = { { ")", "}}]}" }, { ")", "}}]}" }, { ")", "}}]}" }, { ", b1)", "} $b1]}}]}" }, { "", "}}]}" }, { ")", "}]}" }, { " START 1", " initial_value:#1}" }, { "))", "}]}}}]}" }, { ")", "}]}" }, { " NOT NULL)", " constraints:[{body:not_null{}}]}]}" } };
    auto k = symx_choice("place", 10); auto t = any_type(); expect({ l[k].sql + t.sql + r[k].sql, l[k].tree + t.tree + r[k].tree }, "the type is understood as written");
}
// every type as the element of an array, with each kind of length
SYMX_ENTRY(arrays) {
    static constexpr variant s[] = { { "[]", "}" }, { "[~z]", " length:~z}" }, { "[*]", " length:*}" }, { " ARRAY []", "}" }, { " ARRAY[~z]", " length:~z}" }, { " ARRAY[*]", " length:*}" } };
    auto t = any_type(); auto& a = choose("array", s); expect({ "SELECT CAST(a1 AS " + t.sql + a.sql + ")", "query{elements:[column{value:cast_expression{operator_kind:cast operand:$a1 type:collection{element:" + t.tree + a.tree + "}}]}" }, "an array type is understood as written");
}
namespace {
using namespace mizugaki::ast;
scalar::expression const* value_of(sql_parser::result_type const& r) {
    auto& s = *r.value()->statements()[0]; if (s.node_kind() != statement::select_statement::tag) return nullptr;
    auto& q = *static_cast<statement::select_statement const&>(s).expression(); if (q.node_kind() != query::query::tag) return nullptr;
    auto& e = *static_cast<query::query const&>(q).elements()[0]; if (e.node_kind() != query::select_column::tag) return nullptr;
    return static_cast<query::select_column const&>(e).value().get();
}
template<class T> T const* type_of(sql_parser::result_type const& r) { auto v = value_of(r); if (!v || v->node_kind() != scalar::cast_expression::tag) return nullptr; auto& t = *static_cast<scalar::cast_expression const&>(*v).type(); return dynamic_cast<T const*>(&t); }
struct size_place { char const* before; char const* after; };
constexpr size_place sizes[] = { { "SELECT CAST(a AS CHAR(", "))" }, { "SELECT CAST(a AS VARCHAR(", "))" }, { "SELECT CAST(a AS BINARY(", "))" }, { "SELECT CAST(a AS VARBINARY(", "))" }, { "SELECT CAST(a AS DECIMAL(", "))" }, { "SELECT CAST(a AS DECIMAL(1,", "))" }, { "SELECT CAST(a AS INT(", "))" }, { "SELECT CAST(a AS FLOAT(", "))" }, { "SELECT CAST(a AS INT[", "])" }, { "SELECT EXTRACT(SECOND(", ") FROM a)" }, { "SELECT EXTRACT(YEAR TO SECOND(", ") FROM a)" } };
/// the size that a type keeps
bool kept(unsigned k, sql_parser::result_type const& r, std::size_t& v) {
    switch (k) {
        case 0: case 1: if (auto t = type_of<type::character_string>(r); t && t->length()) { v = **t->length(); return true; } return false;
        case 2: case 3: if (auto t = type_of<type::octet_string>(r); t && t->length()) { v = **t->length(); return true; } return false;
        case 4: if (auto t = type_of<type::decimal>(r); t && t->precision()) { v = **t->precision(); return true; } return false;
        case 5: if (auto t = type_of<type::decimal>(r); t && t->scale()) { v = **t->scale(); return true; } return false;
        case 6: case 7: if (auto t = type_of<type::binary_numeric>(r); t && t->precision()) { v = **t->precision(); return true; } return false;
        case 8: if (auto t = type_of<type::collection>(r); t && t->length()) { v = **t->length(); return true; } return false;
        default: { auto e = value_of(r); if (!e || e->node_kind() != scalar::extract_expression::tag) return false; auto& x = static_cast<scalar::extract_expression const&>(*e); if (!x.subsecond_digits()) return false; v = **x.subsecond_digits(); return true; }
    }
}
}
namespace {
/// any number of that many digits: kept exactly, or refused if it does not fit below the largest value
void size(unsigned k, std::string const& d) {
    std::size_t v = 0; bool fits = true;
    for (char c : d) { auto x = static_cast<std::size_t>(c - '0'); bool o = (v > SIZE_MAX / 10) | ((v == SIZE_MAX / 10) & (x > SIZE_MAX % 10)); fits = fits & !o; v = v * 10 + x; }
    fits = fits & (v != SIZE_MAX);
    auto r = sql_parser {}("-", sizes[k].before + d + sizes[k].after); bool ok = r.has_value();
    symx_assert(ok == fits, "a size is accepted if and only if it is in range");
    if (ok) { std::size_t w = 0; bool has = kept(k, r, w); symx_assert(has && w == v, "a size keeps its value"); }
    else { auto& g = r.diagnostic(); std::size_t b = std::string_view { sizes[k].before }.size(); symx_assert(g.code() == sql_parser_code::syntax_error && g.region().begin == b && g.region().end == b + d.size(), "the refusal marks the size"); }
    symx_reach("done");
}
}
SYMX_ENTRY(sizes_small) { auto k = symx_choice("place", 11); size(k, digits(1 + symx_choice("digits", 4), "digit")); }
// around the largest value: the last digits, and leading zeros
SYMX_ENTRY(sizes_large) { auto k = symx_choice("place", 11); auto z = symx_choice("zeros", 3); std::string d = std::string(z, '0') + "184467440737095516"; size(k, d + digits(2, "digit")); }
SYMX_ENTRY(sizes_beyond) { auto k = symx_choice("place", 11); size(k, digits(1, "first") + "00000000000000000000" + digits(symx_choice("digits", 3), "digit")); }
SYMX_ENTRY(sizes_medium) { size(symx_choice("place", 11), "9" + digits(5, "digit")); }
SYMX_ENTRY(type_needs) {
    static char const* const l[] = { "CHAR(*)", "CHAR()", "CHAR(1, 2)", "VARCHAR()", "VARCHAR(-1)", "DECIMAL()", "DECIMAL(1,)", "DECIMAL(1, 2, 3)", "INT(*)", "INT()", "BIGINT(1)", "REAL(1)", "DOUBLE(1)", "DATE(1)", "TIME WITH ZONE", "TIME ZONE", "TIMESTAMP WITH", "INT[1, 2]", "INT[a1]", "INT ARRAY", "INT ARRAY(1)", "ARRAY[1]", "ROW ()", "ROW (INT)", "ROW (a1)", "BINARY(*)", "LARGE OBJECT", "VARCHAR LARGE OBJECT", "BLOB(1)", "CHAR(1.5)", "CHAR(a1)", "CHAR(1e1)", "1", "'a'", "INT INT", "a1 b1", "a1(1)" };
    reject(std::string { "SELECT CAST(z1 AS " } + l[symx_choice("type", 37)] + ")", "a type has exactly its parts"); symx_reach("done");
}
// ---- functions
namespace {
piece builtin(char const* sql, char const* tree) { return { sql, tree }; }
constexpr struct { char const* sql; char const* name; unsigned min, max; } simple[] = { { "ABS", "abs", 1, 3 }, { "CEIL", "ceil", 1, 3 }, { "FLOOR", "floor", 1, 3 }, { "MOD", "mod", 1, 3 }, { "UPPER", "upper", 1, 3 }, { "LOWER", "lower", 1, 3 }, { "LENGTH", "length", 1, 3 }, { "CHAR_LENGTH", "character_length", 1, 3 }, { "CHARACTER_LENGTH", "character_length", 1, 3 }, { "OCTET_LENGTH", "octet_length", 1, 3 }, { "CARDINALITY", "cardinality", 1, 3 } };
std::string call(char const* f, std::string const& a) { return std::string { "builtin_function_invocation{function:" } + f + (a.empty() ? "" : " arguments:[" + a + "]") + "}"; }
/// functions with key words between arguments; A B C D stand for values
constexpr variant special[] = {
    { "POSITION($0 IN $1)", "position" }, { "SUBSTRING($0 FROM $1)", "substring" }, { "SUBSTRING($0 FROM $1 FOR $2)", "substring" }, { "OVERLAY($0 PLACING $1 FROM $2)", "overlay" }, { "OVERLAY($0 PLACING $1 FROM $2 FOR $3)", "overlay" }, { "NULLIF($0, $1)", "nullif" }, { "COALESCE($0)", "coalesce" }, { "COALESCE($0, $1)", "coalesce" }, { "COALESCE($0, $1, $2)", "coalesce" },
    { "CURRENT_TIME($0)", "current_time" }, { "LOCALTIME($0)", "localtime" }, { "CURRENT_TIMESTAMP($0)", "current_timestamp" }, { "LOCALTIMESTAMP($0)", "localtimestamp" }, { "CURRENT_DATE", "current_date" }, { "CURRENT_TIME", "current_time" }, { "LOCALTIME", "localtime" }, { "CURRENT_TIMESTAMP", "current_timestamp" }, { "LOCALTIMESTAMP", "localtimestamp" },
};
constexpr unsigned arity[] = { 2, 2, 3, 3, 4, 2, 1, 2, 3, 1, 1, 1, 1, 0, 0, 0, 0, 0 };
}
SYMX_ENTRY(functions_simple) {
    auto& f = simple[symx_choice("function", 11)]; auto n = f.min + symx_choice("more", 3); auto a = list(n, [](unsigned i) { return i == 1 ? any_value('b') : value(static_cast<char>('a' + i), 0); });
    accepted(symx_choice("place", 2), expand(std::string { f.sql } + "(" + a.sql + ")", true), expand(call(f.name, a.tree), false), m);
}
SYMX_ENTRY(functions_special) {
    auto k = symx_choice("function", 18); auto n = arity[k]; auto at = n ? symx_choice("which", n) : 0; std::string s { special[k].sql }, a {};
    piece v[4]; for (unsigned i = 0; i < n; ++i) { v[i] = i == at ? any_value(static_cast<char>('a' + i)) : value(static_cast<char>('a' + i), 0); if (i) a += ' '; a += v[i].tree; }
    s = put(s, { v[0].sql, v[1].sql, v[2].sql, v[3].sql });
    accepted(symx_choice("place", 2), expand(s, true), expand(call(special[k].tree, a), false), m);
}
SYMX_ENTRY(functions_places) {
    auto k = symx_choice("function", 18); std::string s { special[k].sql }, a {}; for (unsigned i = 0; i < arity[k]; ++i) { if (i) a += ' '; a += std::string { "$" } + letter(static_cast<char>('c' + i)); }
    accepted(piece { put(s, { "c1", "d1", "e1", "f1" }), call(special[k].tree, a) });
}
SYMX_ENTRY(using_names) { auto n = any_name('b', 4); auto v = any_value('a'); bool t = symx_choice("translate", 2) != 0; accepted(symx_choice("place", 3), expand((t ? "TRANSLATE(" : "CONVERT(") + v.sql + " USING " + n.sql + ")", true), expand(call(t ? "translate" : "convert", v.tree + " $" + n.tree), false), m); }
SYMX_ENTRY(trim) {
    static constexpr variant spec[] = { { "", "" }, { "LEADING ", "specification:leading " }, { "TRAILING ", "specification:trailing " }, { "BOTH ", "specification:both " } };
    auto& s = choose("specification", spec); auto v = any_value('a'); auto form = symx_choice("form", 3); // character FROM source, FROM source, source
    if (form == 2) { if (*s.sql) { reject(std::string { "SELECT TRIM(" } + s.sql + v.sql + ")", "TRIM with a side needs FROM"); symx_reach("done"); return; } accepted(symx_choice("place", 3), expand("TRIM(" + v.sql + ")", true), expand("trim_expression{source:" + v.tree + "}", false), m); return; }
    auto c = any_value('b', 7); std::string sql = std::string { "TRIM(" } + s.sql + (form == 0 ? c.sql + " " : "") + "FROM " + v.sql + ")", tree = std::string { "trim_expression{" } + (form == 0 ? "character:" + c.tree + " " : "") + s.tree + "source:" + v.tree + "}";
    accepted(0, expand(sql, true), expand(tree, false), m);
}
SYMX_ENTRY(extract) {
    static constexpr variant f[] = { { "YEAR", "year" }, { "MONTH", "month" }, { "DAY", "day" }, { "HOUR", "hour" }, { "MINUTE", "minute" }, { "SECOND", "second" }, { "TIMEZONE_HOUR", "timezone_hour" }, { "TIMEZONE_MINUTE", "timezone_minute" }, { "DATE", "date" }, { "YEAR TO MONTH", "year to month" }, { "YEAR TO DAY", "year to day" }, { "YEAR TO HOUR", "year to hour" }, { "YEAR TO MINUTE", "year to minute" }, { "YEAR TO SECOND", "year to second" }, { "SECOND(~x)", "second subsecond_digits:~x" }, { "SECOND (*)", "second subsecond_digits:*" }, { "YEAR TO SECOND(~x)", "year to second subsecond_digits:~x" }, { "YEAR TO SECOND (*)", "year to second subsecond_digits:*" } };
    auto& e = choose("field", f); auto v = any_value('a'); accepted(symx_choice("place", 2), expand(std::string { "EXTRACT(" } + e.sql + " FROM " + v.sql + ")", true), expand(std::string { "extract_expression{field:" } + e.tree + " operand:" + v.tree + "}", false), m);
}
SYMX_ENTRY(set_functions) {
    static constexpr variant f[] = { { "COUNT", "count" }, { "AVG", "avg" }, { "MAX", "max" }, { "MIN", "min" }, { "SUM", "sum" }, { "EVERY", "every" }, { "BIT_AND", "bit_and" }, { "BIT_OR", "bit_or" }, { "BOOL_AND", "bool_and" }, { "BOOL_OR", "bool_or" } };
    static constexpr variant q[] = { { "", "" }, { "ALL ", " quantifier:all" }, { "DISTINCT ", " quantifier:distinct" } };
    auto& e = choose("function", f); auto& k = choose("quantifier", q); auto v = symx_choice("condition", 2) ? any_condition('a') : any_value('a');
    accepted(symx_choice("place", 2), expand(std::string { e.sql } + "(" + k.sql + v.sql + ")", true), expand(std::string { "builtin_set_function_invocation{function:" } + e.tree + k.tree + " arguments:[" + v.tree + "]}", false), m);
}
SYMX_ENTRY(count_all) { accepted(piece { "COUNT(*)", "builtin_set_function_invocation{function:count}" }); }
SYMX_ENTRY(invocations) {
    auto f = any_name('f', 4); auto n = symx_choice("arguments", 4); auto which = symx_choice("which", 3); if (n ? which >= n : which) return;
    auto a = list(n, [which](unsigned i) { char c = static_cast<char>('a' + i); if (i != which) return value(c, 0); switch (symx_choice("argument", 3)) { case 0: return any_value(c); case 1: return any_condition(c); default: { auto v = any_value(c, 3); return piece { v.sql + " AS v1", "cast_expression{operator_kind:generalize operand:" + v.tree + " type:user_defined{name:v1}}" }; } } });
    accepted(0, expand(f.sql + "(" + a.sql + ")", true), expand("function_invocation{name:" + f.tree + (n ? " arguments:[" + a.tree + "]" : "") + "}", false), m);
}
SYMX_ENTRY(methods) {
    static constexpr variant q[] = { { "g1()", "function_invocation{name:g1}" }, { "'s'", "'s'" }, { "g1[1]", "binary_expression{left:$g1 operator_kind:element_reference right:#1}" }, { "(g1 + 1)", "binary_expression{left:$g1 operator_kind:plus right:#1}" }, { "?", "placeholder_reference{index:1}" } };
    auto& v = choose("qualifier", q); auto n = symx_choice("arguments", 3); auto a = list(n, [](unsigned i) { return any_value(static_cast<char>('a' + i), 3); }); std::string args = n ? " arguments:[" + a.tree + "]" : "";
    switch (symx_choice("form", 4)) {
        case 0: accepted(0, expand(std::string { v.sql } + ".m1(" + a.sql + ")", true), expand(std::string { "method_invocation{value:" } + v.tree + " operator_kind:period name:m1" + args + "}", false), m); break;
        case 1: accepted(0, expand(std::string { v.sql } + " -> m1(" + a.sql + ")", true), expand(std::string { "method_invocation{value:" } + v.tree + " operator_kind:arrow name:m1" + args + "}", false), m); break;
        case 2: accepted(0, expand(std::string { v.sql } + " . m1", true), expand(std::string { "field_reference{value:" } + v.tree + " operator_kind:period name:m1}", false), m); break;
        default: accepted(0, expand(std::string { v.sql } + "->m1 -> n1", true), expand(std::string { "field_reference{value:field_reference{value:" } + v.tree + " operator_kind:arrow name:m1} operator_kind:arrow name:n1}", false), m); break;
    }
}
SYMX_ENTRY(static_methods) { auto t = any_name('t', 4); auto n = symx_choice("arguments", 3); auto a = list(n, [](unsigned i) { return any_value(static_cast<char>('a' + i), 6); }); accepted(0, expand(t.sql + " :: m1(" + a.sql + ")", true), expand("static_method_invocation{type:user_defined{name:" + t.tree + "} name:m1" + (n ? " arguments:[" + a.tree + "]" : "") + "}", false), m); }
SYMX_ENTRY(new_objects) { auto t = any_name('t', 4); auto n = symx_choice("arguments", 3); auto a = list(n, [](unsigned i) { return any_value(static_cast<char>('a' + i), 6); }); accepted(0, expand("NEW " + t.sql + "(" + a.sql + ")", true), expand("new_invocation{type:user_defined{name:" + t.tree + "}" + (n ? " arguments:[" + a.tree + "]" : "") + "}", false), m); }
SYMX_ENTRY(cases) {
    bool op = symx_choice("operand", 2) != 0; auto k = 1 + symx_choice("when", 3); auto o = op ? any_value('o', 4) : piece {}; std::string s = "CASE" + (op ? " " + o.sql : ""), t {};
    for (unsigned i = 0; i < k; ++i) { auto w = i ? condition(static_cast<char>('a' + i), i) : any_condition('a'); auto r = i ? value(static_cast<char>('e' + i), i) : any_value('e', 4); s += " WHEN " + w.sql + " THEN " + r.sql; t += (i ? " {when:" : "{when:") + w.tree + " result:" + r.tree + "}"; }
    bool el = symx_choice("else", 2) != 0; if (el) s += " ELSE k1 + 1";
    accepted(0, expand(s + " END", true), expand("case_expression{" + (op ? "operand:" + o.tree + " " : "") + "when_clauses:[" + t + "]" + (el ? " default_result:binary_expression{left:$k1 operator_kind:plus right:#1}" : "") + "}", false), m);
}
SYMX_ENTRY(cast_operands) { auto v = symx_choice("condition", 2) ? any_condition('a') : any_value('a'); static constexpr variant l[] = { { "CAST(", "cast" }, { "TREAT(", "treat" }, { "(", "generalize" } }; auto& k = choose("kind", l); accepted(symx_choice("place", 3), expand(k.sql + v.sql + " AS INT)", true), expand(std::string { "cast_expression{operator_kind:" } + k.tree + " operand:" + v.tree + " type:integer{}}", false), m); }
SYMX_ENTRY(elements) { auto v = symx_choice("condition", 2) ? any_condition('a') : any_value('a'); auto k = symx_choice("depth", 2); accepted(symx_choice("place", 3), expand("b1[" + v.sql + "]" + (k ? "[1]" : ""), true), expand((k ? "binary_expression{left:" : std::string {}) + "binary_expression{left:$b1 operator_kind:element_reference right:" + v.tree + "}" + (k ? " operator_kind:element_reference right:#1}" : ""), false), m); }
SYMX_ENTRY(array_values) { auto n = 1 + symx_choice("size", 3); auto v = list(n, [](unsigned i) { return i ? value(static_cast<char>('a' + i), i) : any_value('a'); }); accepted(0, expand("ARRAY[" + v.sql + "]", true), expand("value_constructor{operator_kind:array elements:[" + v.tree + "]}", false), m); }
SYMX_ENTRY(parentheses) { auto v = symx_choice("condition", 2) ? any_condition('a') : any_value('a'); auto k = 1 + symx_choice("depth", 3); accepted(symx_choice("place", 3), expand(std::string(k, '(') + v.sql + std::string(k, ')'), true), expand(v.tree, false), "parentheses around a value leave no trace"); }
SYMX_ENTRY(rows) { auto v = any_value('a'); auto w = any_condition('b', 4); accepted(symx_choice("place", 3), expand("(" + v.sql + ", " + w.sql + ")", true), expand("value_constructor{operator_kind:row elements:[" + v.tree + " " + w.tree + "]}", false), m); }
SYMX_ENTRY(subqueries) { auto q = any_query('a'); accepted(symx_choice("place", 6), expand("(" + q.sql + ")", true), expand("subquery{query:" + q.tree + " context_kind:scalar}", false), m); }
SYMX_ENTRY(dereference) { auto v = symx_choice("condition", 2) ? any_condition('a') : any_value('a'); accepted(symx_choice("place", 3), expand("DEREF(" + v.sql + ")", true), expand("unary_expression{operator_kind:reference_resolution operand:" + v.tree + "}", false), m); }
SYMX_ENTRY(sequences) { auto n = any_name('a', 4); accepted(symx_choice("place", 9), expand("NEXT VALUE FOR " + n.sql, true), expand(call("next_value_for", "$" + n.tree), false), m); }
SYMX_ENTRY(function_needs) {
    static char const* const l[] = { "f1(,)", "f1(,a1)", "f1(a1,)", "f1(a1 b1 c1)", "f1(AS INT)", "f1(a1 AS)", "ABS()", "POSITION(a1)", "POSITION(a1, b1)", "POSITION(a1 IN)", "SUBSTRING(a1)", "SUBSTRING(a1 FOR b1)", "SUBSTRING(a1 FROM b1 FOR)", "OVERLAY(a1 FROM b1)", "OVERLAY(a1 PLACING b1)", "OVERLAY(a1 PLACING b1 FOR c1)", "NULLIF(a1)", "NULLIF(a1, b1, c1)", "NULLIF()", "COALESCE()", "CONVERT(a1)", "CONVERT(a1 USING 1)", "TRANSLATE(a1, b1)", "TRIM()", "TRIM(a1 b1)", "TRIM(LEADING a1)", "TRIM(LEADING TRAILING FROM a1)", "EXTRACT(a1 FROM b1)", "EXTRACT(YEAR a1)", "EXTRACT(MONTH TO DAY FROM a1)", "EXTRACT(MINUTE(1) FROM a1)", "EXTRACT(SECOND() FROM a1)", "COUNT()", "COUNT(DISTINCT *)", "COUNT(ALL)", "COUNT(a1, b1)", "SUM(*)", "SUM()", "SUM(DISTINCT)", "MAX(ALL DISTINCT a1)", "CASE END", "CASE a1 END", "CASE WHEN a1 END", "CASE WHEN a1 THEN b1", "CASE ELSE a1 END", "CASE WHEN a1 THEN b1 ELSE END", "CASE a1 ELSE b1 END", "CAST(a1)", "CAST(AS INT)", "CAST(a1 INT)", "TREAT(a1)", "NEW a1", "NEW (b1)", "a1[]", "a1[1, 2]", "ARRAY[a1", "()", "(a1,)", "(,a1)", "(a1 AS)", "DEREF()", "DEREF a1 b1 c1", "CURRENT_DATE()", "CURRENT_DATE(1)", "CURRENT_TIME()", "LOCALTIME(1, 2)", "NEXT VALUE a1 b1", "NEXT VALUE FOR", "NEXT FOR a1", "NEXT VALUE FOR 1", "a1.", ".a1", "a1..b1", "a1->", "a1 -> 1", "a1::", "a1::1", "1::m1(1)", "(a1 + b1)::m1()", "f1(1)::m1(2)" };
    reject(std::string { "SELECT " } + l[symx_choice("value", 80)] + ", z1", "a function or value has exactly its parts"); symx_reach("done");
}
