// Identifiers: contextual and reserved words, delimited identifiers, restricted names.
#include "common.h"
using namespace h;
namespace {
struct entry { char const* text; unsigned size; };
#define W(T, K) { T, sizeof(T) - 1 },
constexpr entry words[] = {
#include "words.inc"
};
#undef W
constexpr unsigned count = sizeof(words) / sizeof(words[0]);
// the words that stay usable as names
constexpr std::string_view contextual[] = { "ASC", "CONTINUE", "DESC", "KEY", "IGNORE", "SCHEMA", "SEQUENCE", "RESTART", "RESTRICT", "RENAME", "FIRST", "LAST", "ORDINALITY", "VALUE" };
bool is_contextual(entry const& w) { for (auto c : contextual) if (c == std::string_view { w.text, w.size }) return true; return false; }
// templates with one name, written as @
constexpr variant places[] = {
    { "TABLE @", "@@" }, { "SELECT @", "query{elements:[column{value:$@}]}" }, { "SELECT a1 AS @", "query{elements:[column{value:$a1 name:@}]}" },
    { "SELECT a1 @", "query{elements:[column{value:$a1 name:@}]}" }, { "SELECT @ . b1", "query{elements:[column{value:$qualified{last:b1 qualifier:@}}]}" }, { "SELECT a1 . @", "query{elements:[column{value:$qualified{last:@ qualifier:a1}}]}" },
    { "SELECT * FROM a1 @", "query{elements:[asterisk{}] from:[table_reference{name:a1 correlation:{correlation_name:@}}]}" },
    { "SELECT * FROM a1 b1 (@)", "query{elements:[asterisk{}] from:[table_reference{name:a1 correlation:{correlation_name:b1 column_names:[@]}}]}" },
    { "SELECT @(a1)", "query{elements:[column{value:function_invocation{name:@ arguments:[$a1]}}]}" },
    { "SELECT a1 -> @", "query{elements:[column{value:field_reference{value:$a1 operator_kind:arrow name:@}}]}" },
    { "SELECT CAST(a1 AS @)", "query{elements:[column{value:cast_expression{operator_kind:cast operand:$a1 type:user_defined{name:@}}}]}" },
    { "WITH @ AS (TABLE a1) TABLE b1", "with_expression{elements:[{name:@ expression:@a1}] expression:@b1}" },
    { "INSERT INTO a1 (@) VALUES (1)", "insert_statement{table_name:a1 columns:[@] expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]}}" },
    { "INSERT INTO @ DEFAULT VALUES", "insert_statement{table_name:@}" }, { "UPDATE a1 SET @ = b1", "update_statement{table_name:a1 elements:[{target:@ value:$b1}]}" }, { "UPDATE @ SET a1 = b1", "update_statement{table_name:@ elements:[{target:a1 value:$b1}]}" },
    { "DELETE FROM @", "delete_statement{table_name:@}" }, { "CREATE TABLE @ (a1 INT)", "table_definition{name:@ elements:[column_definition{name:a1 type:integer{}}]}" },
    { "CREATE TABLE a1 (@ INT)", "table_definition{name:a1 elements:[column_definition{name:@ type:integer{}}]}" },
    { "CREATE TABLE a1 (b1 @)", "table_definition{name:a1 elements:[column_definition{name:b1 type:user_defined{name:@}}]}" },
    { "CREATE INDEX @ ON a1 (b1)", "index_definition{name:@ table_name:a1 keys:[{key:$b1}]}" }, { "CREATE VIEW @ AS TABLE a1", "view_definition{name:@ query:@a1}" },
    { "CREATE SEQUENCE @", "sequence_definition{name:@}" }, { "CREATE SCHEMA @", "schema_definition{name:@}" }, { "DROP TABLE @", "drop_table_statement{name:@}" }, { "DROP SCHEMA @", "drop_schema_statement{name:@}" },
    { "ALTER TABLE a1 RENAME TO @", "alter_table_statement{name:a1 action:rename_table{replacement:@}}" }, { "ALTER TABLE a1 RENAME COLUMN @ TO b1", "alter_table_statement{name:a1 action:rename_column{column_name:@ replacement:b1}}" },
    { "GRANT SELECT ON @ TO a1", "grant_privilege_statement{actions:[{action_kind:select}] objects:[{object_name:@}] users:[{user_kind:identifier authorization_identifier:a1}]}" },
    { "GRANT SELECT ON a1 TO @", "grant_privilege_statement{actions:[{action_kind:select}] objects:[{object_name:a1}] users:[{user_kind:identifier authorization_identifier:@}]}" },
    { "SELECT NEXT VALUE FOR @", "query{elements:[column{value:builtin_function_invocation{function:next_value_for arguments:[$@]}}]}" },
};
constexpr unsigned place_count = sizeof(places) / sizeof(places[0]);
/// the text of a place around a name; the tree marks a name by @ unless that is the first of two
struct around { std::string before, after; };
around cut(std::string const& t, bool sql) {
    std::size_t p = t.find('@');
    if (!sql && t == "@@") p = 1; // the tree of TABLE name is itself written @name
    else if (!sql) for (p = 0; p < t.size(); ++p) if (t[p] == '@' && (p == 0 || t[p - 1] != '[') && !(t[p + 1] >= 'a' && t[p + 1] <= 'z')) break;
    if (!sql && t.find("[@]") != std::string::npos) p = t.find("[@]") + 1;
    return { expand(t.substr(0, p), sql), expand(t.substr(p + 1), sql) };
}
std::string spelled(entry const& w) { std::string s {}; for (unsigned i = 0; i < w.size; ++i) { char c = w.text[i]; s += c >= 'A' && c <= 'Z' ? static_cast<char>(c ^ (symx_bits("case", 1) << 5)) : c; } return s; }
void accepted(variant const& p, std::string const& name, std::string const& shown, char const* msg) {
    auto s = cut(p.sql, true), t = cut(p.tree, false);
    auto o = run(s.before + name + s.after);
    symx_assert(o.ok, msg); if (!o.ok) return;
    same(o.text, t.before + shown + t.after, msg);
}
}
// every word of the language, in any letter case, in the place of a name
SYMX_ENTRY(words_as_names) {
    auto hi = symx_choice("half", 2); auto lo = symx_choice("word", 141); unsigned i = hi * 141 + lo; if (i >= count) return;
    auto& w = words[i]; auto& p = places[0]; auto n = spelled(w);
    if (is_contextual(w)) accepted(p, n, n, "a contextual word is a name"); else { auto s = cut(p.sql, true); symx_assert(!run(s.before + n + s.after).ok, "a reserved word is not a name"); }
    symx_reach("done");
}
SYMX_ENTRY(words_as_columns) {
    static constexpr unsigned at[] = { 2, 7, 12, 17, 18, 22, 23, 26, 27 };
    auto hi = symx_choice("half", 2); auto lo = symx_choice("word", 141); unsigned i = hi * 141 + lo; if (i >= count) return;
    auto& w = words[i]; auto& p = places[at[symx_choice("place", 9)]];
    if (is_contextual(w)) accepted(p, w.text, w.text, "a contextual word is a name"); else { auto s = cut(p.sql, true);
        // CREATE SCHEMA may be followed by AUTHORIZATION or another statement, both of which need more than a word
        symx_assert(!run(s.before + w.text + s.after).ok, "a reserved word is not a name"); }
    symx_reach("done");
}
// every contextual word in every place of a name
SYMX_ENTRY(contextual_everywhere) {
    entry w {}; auto c = contextual[symx_choice("word", 14)]; w.text = c.data(); w.size = static_cast<unsigned>(c.size());
    auto n = spelled(w); accepted(places[symx_choice("place", place_count)], n, n, "a contextual word is a name in every place"); symx_reach("done");
}
// and they keep their role where the grammar gives them one
SYMX_ENTRY(contextual_roles) {
    static constexpr variant l[] = {
        { "SELECT ASC FROM DESC ORDER BY FIRST ASC NULLS LAST, LAST DESC NULLS FIRST", "query{elements:[column{value:$asc}] from:[@desc] order_by:[{key:$first direction:asc null_location:last} {key:$last direction:desc null_location:first}]}" },
        { "TRUNCATE TABLE RESTART RESTART IDENTITY", "truncate_table_statement{name:restart identity_column_option:restart_identity}" },
        { "TRUNCATE TABLE CONTINUE CONTINUE IDENTITY", "truncate_table_statement{name:continue identity_column_option:continue_identity}" },
        { "DROP TABLE RESTRICT RESTRICT", "drop_table_statement{name:restrict options:[restrict]}" },
        { "ALTER TABLE RENAME RENAME TO RENAME", "alter_table_statement{name:rename action:rename_table{replacement:rename}}" },
        { "CREATE SCHEMA SCHEMA", "schema_definition{name:schema}" }, { "CREATE SEQUENCE SEQUENCE", "sequence_definition{name:sequence}" },
        { "CREATE TABLE KEY (KEY INT PRIMARY KEY)", "table_definition{name:key elements:[column_definition{name:key type:integer{} constraints:[{body:primary_key{constraint_kind:primary_key}}]}]}" },
        { "INSERT OR IGNORE INTO IGNORE DEFAULT VALUES", "insert_statement{table_name:ignore options:[or_ignore]}" },
        { "SELECT NEXT VALUE FOR VALUE", "query{elements:[column{value:builtin_function_invocation{function:next_value_for arguments:[$value]}}]}" },
        { "SELECT * FROM UNNEST (ORDINALITY) WITH ORDINALITY ORDINALITY", "query{elements:[asterisk{}] from:[unnest{expression:$ordinality with_ordinality:yes correlation:{correlation_name:ordinality}}]}" },
    };
    auto& v = choose("statement", l);
    // letter case is free, so the names are compared in lower case
    auto o = run(expand(v.sql, true)); std::string low {}; for (char c : o.text) low += static_cast<char>(c | (((c >= 'A') & (c <= 'Z')) << 5));
    symx_assert(o.ok, "a contextual word keeps its role"); if (o.ok) same(low, v.tree, "a contextual word keeps its role"); symx_reach("done");
}
// a regular name is kept as written: any letters, digits and underscores
SYMX_ENTRY(regular) {
    auto n = 1 + symx_choice("size", 6); std::string s {};
    for (unsigned i = 0; i < n; ++i) { auto c = symx_byte("char"); bool l = (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '_'); bool d = c >= '0' && c <= '9'; symx_assume(i ? l | d : l); s += static_cast<char>(c); }
    // longer than the words with these letters: no key word starts with an underscore in second place
    std::string name = "q" + s + "_";
    accepted(places[symx_choice("place", place_count)], name, name, "a regular identifier is kept as written"); symx_reach("done");
}
SYMX_ENTRY(delimited) {
    auto n = 1 + symx_choice("size", 5); std::string text { "\"" }, shown { "\"" };
    for (unsigned i = 0; i < n; ++i) {
        if (symx_choice("quote", 2)) { text += "\"\""; shown += '"'; continue; }
        auto c = symx_byte("char"); symx_assume((c >= 0x20) & (c != 0x7f) & (c != '"')); if (i == 0) symx_assume(c != '_'); text += static_cast<char>(c); shown += static_cast<char>(c);
    }
    text += '"'; shown += '"';
    accepted(places[n <= 2 ? symx_choice("place", place_count) : symx_choice("place", 3)], text, shown, "a delimited identifier is kept as written"); symx_reach("done");
}
namespace {
void refused(std::string const& before, std::string const& name, std::string const& after) {
    auto o = run(before + name + after);
    symx_assert(!o.ok, "a name that starts with two underscores is refused"); if (o.ok) return;
    symx_assert(o.code == sql_parser_code::invalid_token, "the refusal says that the token is not valid");
    symx_assert(o.region.begin == before.size() && o.region.end == before.size() + name.size(), "the refusal marks exactly the name");
    same(o.message, "identifier must not start with two underscores: " + name, "the refusal shows the name");
}
}
SYMX_ENTRY(restricted) {
    auto n = symx_choice("size", 5); std::string name { "__" };
    for (unsigned i = 0; i < n; ++i) { auto c = symx_byte("char"); symx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | ((c >= '0') & (c <= '9'))); name += static_cast<char>(c); }
    auto s = cut(places[symx_choice("place", place_count)].sql, true); refused(s.before, name, s.after); symx_reach("done");
}
SYMX_ENTRY(restricted_delimited) {
    auto n = symx_choice("size", 5); std::string name { "\"__" };
    for (unsigned i = 0; i < n; ++i) { if (symx_choice("quote", 2)) { name += "\"\""; continue; } auto c = symx_byte("char"); symx_assume((c >= 0x20) & (c != 0x7f) & (c != '"')); name += static_cast<char>(c); }
    auto s = cut(places[symx_choice("place", 4)].sql, true); refused(s.before, name + "\"", s.after); symx_reach("done");
}
// one underscore, or two later on, is no restriction
SYMX_ENTRY(underscores) {
    static char const* const l[] = { "_a__", "a__", "a__b", "_1", "\"_\"", "\"a__\"", "\"_ _\"", "\" __\"", "\"_\"\"_\"" };
    static char const* const shown[] = { "_a__", "a__", "a__b", "_1", "\"_\"", "\"a__\"", "\"_ _\"", "\" __\"", "\"_\"_\"" };
    auto i = symx_choice("name", 9); accepted(places[symx_choice("place", place_count)], l[i], shown[i], "an underscore is a character like any other"); symx_reach("done");
}
