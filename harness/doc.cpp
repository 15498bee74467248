// The document around the statements: layout, comments, statement lists, placeholders, descriptions.
#include "common.h"
using namespace h;
namespace {
#define CASE(s, t) { s, t },
constexpr variant query[] = {
#include "cases/query.inc"
};
constexpr variant table[] = {
#include "cases/table.inc"
};
constexpr variant function[] = {
#include "cases/function.inc"
};
constexpr variant type[] = {
#include "cases/type.inc"
};
constexpr variant dml[] = {
#include "cases/dml.inc"
};
constexpr variant ddl[] = {
#include "cases/ddl.inc"
};
constexpr variant predicate[] = {
#include "cases/predicate.inc"
};
constexpr variant literal[] = {
#include "cases/literal.inc"
};
#undef CASE
/// where a blank of a statement separates tokens; the two-word phrases and period-asterisk allow blanks only
std::vector<std::size_t> gaps(std::string const& t) {
    std::vector<std::size_t> r {}; char quote = 0;
    auto phrase = [&](std::size_t i, std::string_view l, std::string_view n) { return i >= l.size() && std::string_view { t }.substr(i - l.size(), l.size()) == l && std::string_view { t }.substr(i + 1, n.size()) == n; };
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (quote) { if (t[i] == quote) quote = 0; continue; }
        if (t[i] == '\'' || t[i] == '"') { quote = t[i]; continue; }
        if (t[i] == ' ' && !phrase(i, "UNION", "JOIN") && !phrase(i, "OUTER", "APPLY") && !phrase(i, ".", "*")) r.push_back(i);
    }
    return r;
}
struct filling { std::string text {}; std::vector<node_region> comments {}; };
/// any white space or one of some comments
filling something(std::size_t at) {
    filling f {};
    switch (symx_choice("filling", 4)) {
        case 0: { auto n = 1 + symx_choice("size", 3); for (unsigned i = 0; i < n; ++i) { auto b = static_cast<unsigned char>(symx_bits("space", 3)); f.text += static_cast<char>(b < 5 ? 9 + b : 32); } break; }
        case 1: { f.text = "/*;'*/"; f.comments.emplace_back(at, at + 6); break; }
        case 2: { f.text = "--\"*/\r\n"; f.comments.emplace_back(at, at + 5); break; }
        default: f.text = " /**/-- /*\n/*--*/\t"; f.comments = { { at + 1, at + 5 }, { at + 5, at + 10 }, { at + 11, at + 17 } };
    }
    return f;
}
/// any white space, or a comment with any contents
filling anything(std::size_t at) {
    filling f {};
    switch (symx_choice("filling", 3)) {
        case 0: { auto n = 1 + symx_choice("size", 4); for (unsigned i = 0; i < n; ++i) { auto b = static_cast<unsigned char>(symx_bits("space", 3)); f.text += static_cast<char>(b < 5 ? 9 + b : 32); } break; }
        case 1: {
            auto n = symx_choice("size", 4); f.text = "/*"; unsigned char last = 0;
            for (unsigned i = 0; i < n; ++i) { auto c = symx_byte("comment"); symx_assume((last != '*') | (c != '/')); if (i + 1 == n) symx_assume(c != '*'); last = c; f.text += static_cast<char>(c); }
            f.text += "*/"; f.comments.emplace_back(at, at + f.text.size()); break;
        }
        case 2: {
            auto n = symx_choice("size", 4); f.text = "--";
            for (unsigned i = 0; i < n; ++i) { auto c = symx_byte("comment"); symx_assume(c != '\n'); if (i + 1 == n) symx_assume(c != '\r'); f.text += static_cast<char>(c); }
            f.comments.emplace_back(at, at + f.text.size()); f.text += symx_choice("line end", 2) ? "\r\n" : "\n"; break;
        }
    }
    return f;
}
void layout(variant const& v, bool any) { std::string t { v.sql }; auto g = gaps(t); std::size_t k = symx_choice("gap", static_cast<unsigned>(g.size() + 2));
    std::size_t at = k == g.size() ? 0 : k > g.size() ? t.size() : g[k];
    auto before = expand(t.substr(0, at), true); if (at != 0 && t[at - 1] == '-') before += ' '; // not to begin a comment with that minus
    auto f = any ? anything(before.size()) : something(before.size()); auto after = expand(at == 0 || at == t.size() ? t.substr(at) : t.substr(at + 1), true);
    auto sql = before + f.text + after;
    auto r = sql_parser {}("-", sql);
    symx_assert(r.has_value(), "white space and comments may stand between any two tokens"); if (!r.has_value()) return;
    symx_assert(r.value()->statements().size() == 1, "white space and comments add no statement");
    same(tree(*r.value()->statements()[0]), expand(v.tree, false), "white space and comments do not change the tree");
    auto& c = r.value()->comments(); bool ok = c.size() == f.comments.size();
    for (std::size_t i = 0; ok && i < c.size(); ++i) ok = c[i].begin == f.comments[i].begin && c[i].end == f.comments[i].end;
    symx_assert(ok, "exactly the comments are recorded, each with its extent"); symx_reach("done");
}
template<std::size_t N> void layout(variant const (&l)[N]) { layout(choose("statement", l), false); }
}
SYMX_ENTRY(layout_query) { layout(::query); }
SYMX_ENTRY(layout_table) { layout(::table); }
SYMX_ENTRY(layout_function) { layout(::function); }
SYMX_ENTRY(layout_type) { layout(::type); }
SYMX_ENTRY(layout_dml) { layout(::dml); }
SYMX_ENTRY(layout_ddl) { layout(::ddl); }
SYMX_ENTRY(layout_predicate) { layout(::predicate); }
SYMX_ENTRY(layout_literal) { layout(::literal); }
SYMX_ENTRY(layout_contents) { layout({ "SELECT a1 FROM b1", "query{elements:[column{value:$a1}] from:[@b1]}" }, true); }
SYMX_ENTRY(layout_contents_all) { auto k = symx_choice("topic", 3); layout(k == 0 ? choose("statement", ::query) : k == 1 ? choose("statement", ::dml) : choose("statement", ::ddl), true); }
// ---- statement lists
namespace {
constexpr variant statements[] = { { "", "empty_statement{}" }, { " ", "empty_statement{}" }, { "/*;*/", "empty_statement{}" }, { "TABLE a1", "@a1" }, { "SELECT ';', \";\" FROM b1 --;\n", "query{elements:[column{value:';'} column{value:$\";\"}] from:[@b1]}" }, { "DROP TABLE c1", "drop_table_statement{name:c1}" }, { "INSERT INTO d1 DEFAULT VALUES", "insert_statement{table_name:d1}" } };
void list(unsigned n, unsigned kinds) {
    std::string s {}; std::vector<std::string> t {}; bool empty = false;
    for (unsigned i = 0; i < n; ++i) { auto& v = statements[symx_choice("statement", kinds)]; if (i) s += ';'; s += expand(v.sql, true); t.push_back(expand(v.tree, false)); empty = v.tree[0] == 'e'; }
    if (empty) t.pop_back();
    auto o = run(s); symx_assert(o.ok, "a list of statements is accepted"); if (!o.ok) return;
    std::string all {}; for (std::size_t i = 0; i < t.size(); ++i) { if (i) all += ';'; all += t[i]; }
    symx_assert(o.statements == t.size(), "there are as many statements as were written"); same(o.text, all, "every statement is kept, in order"); symx_reach("done");
}
}
SYMX_ENTRY(list1) { list(1, 7); }
SYMX_ENTRY(list2) { list(2, 7); }
SYMX_ENTRY(list3) { list(3, 7); }
SYMX_ENTRY(list4) { list(4, 7); }
SYMX_ENTRY(list5) { list(5, 5); }
// a broken statement anywhere makes the whole document fail
SYMX_ENTRY(list_broken) {
    static char const* const broken[] = { "TABLE", "SELECT FROM a1", "a1", "TABLE a1 b1", "DROP", ")" };
    auto n = 1 + symx_choice("size", 4); auto at = symx_choice("place", 4); if (at >= n) return; auto k = symx_choice("broken", 6); std::string s {};
    for (unsigned i = 0; i < n; ++i) { if (i) s += ';'; s += expand(i == at ? broken[k] : statements[symx_choice("statement", 7)].sql, true); }
    symx_assert(!run(s).ok, "a broken statement makes the document fail"); symx_reach("done");
}
// two statements next to each other need a semicolon
SYMX_ENTRY(list_separator) {
    auto& a = statements[3 + symx_choice("first", 4)]; auto& b = statements[3 + symx_choice("second", 4)];
    symx_assert(!run(expand(std::string { a.sql } + "\n" + b.sql, true)).ok, "statements are separated by semicolons"); symx_reach("done");
}
// ---- placeholders
namespace {
struct mark { char const* sql; char const* tree; bool counts; };
constexpr mark marks[] = { { "?", nullptr, true }, { "'?'", "'?'", false }, { "\"?\"", "$\"?\"", false }, { "/*?*/1", "#1", false }, { "--?\n1", "#1", false }, { ":a1", "host_parameter_reference{name::a1}", false }, { "? + -?", nullptr, true }, { "f1(?, '?')", nullptr, true } };
std::string index(unsigned& n) { return "placeholder_reference{index:" + std::to_string(++n) + "}"; }
void placeholders(unsigned n, unsigned kinds) {
    std::string s { "VALUES (" }, t { "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[" }; unsigned c = 0; auto split = symx_choice("split", n);
    for (unsigned i = 0; i < n; ++i) {
        auto k = symx_choice("mark", kinds); auto& m = marks[k];
        if (i && i == split) { s += "); VALUES ("; t += "]}]};table_value_constructor{elements:[value_constructor{operator_kind:row elements:["; } else if (i) { s += ", "; t += ' '; }
        s += m.sql;
        if (!m.counts) t += m.tree; else if (k == 0) t += index(c);
        else if (k == 6) { t += "binary_expression{left:" + index(c); t += " operator_kind:plus right:unary_expression{operator_kind:minus operand:" + index(c) + "}}"; }
        else t += "function_invocation{name:f1 arguments:[" + index(c) + " '?']}";
    }
    expect(s + ")", t + "]}]}", "placeholders are numbered from 1 in the order of the document"); symx_reach("done");
}
}
SYMX_ENTRY(placeholders1) { placeholders(1, 8); }
SYMX_ENTRY(placeholders3) { placeholders(3, 8); }
SYMX_ENTRY(placeholders4) { placeholders(4, 8); }
SYMX_ENTRY(placeholders6) { placeholders(6, 4); }
// every place of a statement that takes a value
SYMX_ENTRY(placeholder_places) {
    static constexpr variant l[] = {
        { "SELECT ?, ? FROM f1 JOIN g1 ON ? WHERE ? GROUP BY ? HAVING ? ORDER BY ? LIMIT ?", "query{elements:[column{value:#P} column{value:#P}] from:[join{left:@f1 operator_kind:inner right:@g1 specification:condition{expression:#P}}] where:#P group_by:{elements:[column{column:#P}]} having:#P order_by:[{key:#P}] limit:#P}" },
        { "SELECT ? BETWEEN ? AND ?, ? IN (?, ?), ? LIKE ? ESCAPE ?, CASE ? WHEN ? THEN ? ELSE ? END", "query{elements:[column{value:between_predicate{target:#P left:#P right:#P}} column{value:in_predicate{left:#P right:table_value_constructor{elements:[#P #P]}}} column{value:pattern_match_predicate{match_value:#P operator_kind:like pattern:#P escape:#P}} column{value:case_expression{operand:#P when_clauses:[{when:#P result:#P}] default_result:#P}}]}" },
        { "UPDATE a1 SET b1 = ?, c1 = ? WHERE ? = ?; DELETE FROM a1 WHERE ?", "update_statement{table_name:a1 elements:[{target:b1 value:#P} {target:c1 value:#P}] where:comparison_predicate{left:#P operator_kind:equals right:#P}};delete_statement{table_name:a1 where:#P}" },
        { "INSERT INTO a1 VALUES (?, ?), (?, ?); TABLE a1; INSERT INTO b1 SELECT ?", "insert_statement{table_name:a1 expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#P #P]} value_constructor{operator_kind:row elements:[#P #P]}]}};@a1;insert_statement{table_name:b1 expression:query{elements:[column{value:#P}]}}" },
        { "SELECT (SELECT ?) + ?, ARRAY[?, ?], CAST(? AS INT), f1(?)[?], ? AT TIME ZONE ?, (?)", "query{elements:[column{value:binary_expression{left:subquery{query:query{elements:[column{value:#P}]} context_kind:scalar} operator_kind:plus right:#P}} column{value:value_constructor{operator_kind:array elements:[#P #P]}} column{value:cast_expression{operator_kind:cast operand:#P type:integer{}}} column{value:binary_expression{left:function_invocation{name:f1 arguments:[#P]} operator_kind:element_reference right:#P}} column{value:binary_expression{left:#P operator_kind:at_time_zone right:#P}} column{value:#P}]}" },
        { "WITH a1 AS (VALUES (?)) SELECT * FROM (SELECT ?) b1 WHERE ? AND NOT ? OR ?", "with_expression{elements:[{name:a1 expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#P]}]}}] expression:query{elements:[asterisk{}] from:[subquery{expression:query{elements:[column{value:#P}]} correlation:{correlation_name:b1}}] where:binary_expression{left:binary_expression{left:#P operator_kind:and right:unary_expression{operator_kind:not operand:#P}} operator_kind:or right:#P}}}" },
    };
    auto& v = choose("statement", l); std::string t {}; unsigned c = 0;
    for (char const* p = v.tree; *p; ++p) if (p[0] == '#' && p[1] == 'P') { t += index(c); ++p; } else t += *p;
    expect(v.sql, t, "placeholders are numbered from 1 in the order of the document"); symx_reach("done");
}
// ---- description comments
namespace {
constexpr struct { char const* text; unsigned size; bool is; } comments[] = { { "", 0, false }, { "/* x */", 7, false }, { "/**/", 4, false }, { "/***/", 5, true }, { "/** d */", 8, true }, { "-- /** */\n", 9, false }, { "/** **/", 7, true } };
constexpr unsigned comment_kinds = 7;
struct builder {
    std::string sql {}; bool enabled { true };
    /// puts up to n comments here; the last that describes counts
    std::string describe(unsigned n, bool any = true) {
        std::string r {};
        for (unsigned i = 0; i < n; ++i) {
            auto& c = comments[symx_choice("comment", any ? comment_kinds : 5)]; if (c.is && enabled) r = " description:{begin:" + std::to_string(sql.size()) + " end:" + std::to_string(sql.size() + c.size) + "}";
            // an extent from 0 is written without its beginning only if it were empty, which it never is
            sql += c.text; if (symx_choice("gap", 2)) sql += expand(" ", true);
        }
        return r;
    }
    void noise() { sql += comments[symx_choice("comment", 2) ? 4 : 0].text; }
    void add(char const* t) { sql += expand(t, true); }
    void check(std::string const& t) {
        sql_parser_options o {}; o.enable_description_comments() = enabled; auto r = run(sql, std::move(o));
        symx_assert(r.ok, "comments do not disturb a definition"); if (!r.ok) return;
        same(r.text, expand(t, false), "a description is the last description comment right before a definition"); symx_reach("done");
    }
};
struct definition { char const* sql; char const* head; char const* tail; };
constexpr definition definitions[] = {
    { " TABLE a1 ()", "table_definition{name:a1", "}" }, { " INDEX ON a1 (b1)", "index_definition{table_name:a1 keys:[{key:$b1}]", "}" }, { " UNIQUE INDEX c1 ON a1 (b1) WHERE d1", "index_definition{name:c1 table_name:a1 keys:[{key:$b1}] predicate:$d1 options:[unique]", "}" },
    { " VIEW a1 AS TABLE b1", "view_definition{name:a1 query:@b1", "}" }, { " OR REPLACE VIEW a1 AS TABLE b1", "view_definition{name:a1 query:@b1 options:[or_replace]", "}" }, { " SEQUENCE a1", "sequence_definition{name:a1", "}" }, { " SCHEMA a1", "schema_definition{name:a1", "}" },
};
}
SYMX_ENTRY(description) {
    builder b {}; b.enabled = symx_choice("enabled", 2) != 0; auto& d = definitions[symx_choice("definition", 7)];
    auto r = b.describe(2); b.add("CREATE"); b.add(d.sql); b.check(std::string { d.head } + r + d.tail);
}
SYMX_ENTRY(description3) { builder b {}; auto r = b.describe(3); b.add("CREATE TABLE a1 ()"); b.check("table_definition{name:a1" + r + "}"); }
// only comments right before the definition count, not those of other tokens or statements
SYMX_ENTRY(description_place) {
    builder b {}; auto& d = definitions[symx_choice("definition", 7)];
    b.noise(); bool first = symx_choice("first", 2) != 0; if (first) { b.add("TABLE z1"); b.noise(); b.add(";"); } else b.sql.clear();
    auto r = b.describe(1); b.add("CREATE"); b.noise(); b.add(d.sql); b.noise();
    b.check((first ? "@z1;" : "") + std::string { d.head } + r + d.tail);
}
namespace {
void columns(unsigned n) {
    builder b {}; b.enabled = symx_choice("enabled", 2) != 0;
    b.add("CREATE TABLE a1 ("); auto r0 = b.describe(n); b.add("b1 "); b.noise(); b.add("INT"); b.noise(); b.add(", "); auto r1 = b.describe(1); b.add("c1 DATE NULL"); b.noise(); b.add(")");
    b.check("table_definition{name:a1 elements:[column_definition{name:b1 type:integer{}" + r0 + "} column_definition{name:c1 type:date{} constraints:[{body:null{}}]" + r1 + "}]}");
}
}
SYMX_ENTRY(description_columns) { columns(1); }
SYMX_ENTRY(description_columns2) { columns(2); }
SYMX_ENTRY(description_schema) {
    builder b {}; auto r0 = b.describe(1); b.add("CREATE SCHEMA a1 "); auto r1 = b.describe(1); b.add("CREATE TABLE b1 ("); auto r2 = b.describe(1, false); b.add("c1 INT) "); auto r3 = b.describe(1, false); b.add("CREATE SEQUENCE d1");
    b.check("schema_definition{name:a1 elements:[table_definition{name:b1 elements:[column_definition{name:c1 type:integer{}" + r2 + "}]" + r1 + "} sequence_definition{name:d1" + r3 + "}]" + r0 + "}");
}
// the contents of a comment do not matter, and every comment of five or more characters that starts with /** describes
SYMX_ENTRY(description_contents) {
    auto n = symx_choice("size", 4); std::string c { "/*" }; unsigned char last = 0;
    for (unsigned i = 0; i < n; ++i) { auto x = symx_byte("char"); symx_assume((last != '*') | (x != '/')); c += static_cast<char>(x); last = x; }
    // a comment ends at the first asterisk and slash
    if (n) symx_assume(!((c.size() > 3) & (last == '*')) || true);
    c += "*/"; bool is = n >= 1 && c[2] == '*';
    builder b {}; b.sql = c; b.add("CREATE TABLE a1 ()");
    b.check("table_definition{name:a1" + (is ? " description:{begin:0 end:" + std::to_string(c.size()) + "}" : "") + "}");
}
