// SELECT clauses, FROM items, joins, row constructors.
#include "gen.h"
using namespace h;
namespace {
constexpr char const* m = "the query is understood as written";
piece alias() {
    static constexpr variant l[] = { { "", "" }, { " q1", " correlation:{correlation_name:q1}" }, { " AS q1", " correlation:{correlation_name:q1}" }, { " q1 (r1)", " correlation:{correlation_name:q1 column_names:[r1]}" }, { " AS q1(r1, v1)", " correlation:{correlation_name:q1 column_names:[r1 v1]}" } };
    return any("alias", l);
}
piece must_alias() {
    static constexpr variant l[] = { { " q1", " correlation:{correlation_name:q1}" }, { " AS q1", " correlation:{correlation_name:q1}" }, { " q1 (r1)", " correlation:{correlation_name:q1 column_names:[r1]}" }, { " AS q1(r1, v1)", " correlation:{correlation_name:q1 column_names:[r1 v1]}" } };
    return any("alias", l);
}
piece plain(std::string const& n) { return { n, "@" + n }; }
/// one item of FROM
piece source(unsigned form, char c) {
    switch (form) {
        case 0: { auto n = any_name(c, 4); auto a = alias(); return { n.sql + a.sql, a.tree.empty() ? "@" + n.tree : "table_reference{name:" + n.tree + a.tree + "}" }; }
        case 1: { auto n = any_name(c, 2); auto a = alias(); return { "ONLY (" + n.sql + ")" + a.sql, "table_reference{is_only:yes name:" + n.tree + a.tree + "}" }; }
        case 2: { auto q = any_query(c); auto a = must_alias(); return { "(" + q.sql + ")" + a.sql, "subquery{expression:" + q.tree + a.tree + "}" }; }
        case 3: { auto q = any_query(c); auto a = must_alias(); return { "LATERAL (" + q.sql + ")" + a.sql, "subquery{is_lateral:yes expression:" + q.tree + a.tree + "}" }; }
        default: { auto v = any_value(c); auto o = symx_choice("ordinality", 2); auto a = must_alias(); return { "UNNEST (" + v.sql + ")" + (o ? " WITH ORDINALITY" : "") + a.sql, "unnest{expression:" + v.tree + (o ? " with_ordinality:yes" : "") + a.tree + "}" }; }
    }
}
piece from(piece const& p) { return { "SELECT * FROM " + p.sql, "query{elements:[asterisk{}] from:[" + p.tree + "]}" }; }
piece column(char c, unsigned forms) {
    switch (auto k = symx_choice("column", 3 + forms)) {
        case 0: return { "*", "asterisk{}" };
        case 1: return { letter(c) + ".*", "asterisk{qualifier:$" + letter(c) + "}" };
        case 2: return { "s1." + letter(c) + " . *", "asterisk{qualifier:$qualified{last:" + letter(c) + " qualifier:s1}}" };
        default: { auto v = value(c, k - 3); static constexpr variant as[] = { { "", "" }, { " AS q1", " name:q1" }, { " q1", " name:q1" } }; auto n = any("as", as); return { v.sql + n.sql, "column{value:" + v.tree + n.tree + "}" }; }
    }
}
constexpr variant quantifiers[] = { { "", "" }, { "ALL ", "quantifier:all " }, { "DISTINCT ", "quantifier:distinct " } };
piece sort(char c, unsigned forms) {
    static constexpr variant collate[] = { { "", "" }, { " COLLATE q1", " collation:q1" }, { " COLLATE q1.r1", " collation:qualified{last:r1 qualifier:q1}" } };
    static constexpr variant direction[] = { { "", "" }, { " ASC", " direction:asc" }, { " DESC", " direction:desc" } };
    static constexpr variant nulls[] = { { "", "" }, { " NULLS FIRST", " null_location:first" }, { " NULLS LAST", " null_location:last" } };
    auto v = any_value(c, forms); auto a = any("collate", collate); auto d = any("direction", direction); auto n = any("nulls", nulls);
    return { v.sql + a.sql + d.sql + n.sql, "{key:" + v.tree + a.tree + d.tree + n.tree + "}" };
}
}
SYMX_ENTRY(columns) { auto& q = choose("quantifier", quantifiers); auto p = list(1 + symx_choice("more", 2), [](unsigned i) { return column(static_cast<char>('a' + i), 5); }); expect({ std::string { "SELECT " } + q.sql + p.sql, std::string { "query{" } + q.tree + "elements:[" + p.tree + "]}" }, m); }
SYMX_ENTRY(column_values) { auto p = column('a', value_forms); expect({ "SELECT " + p.sql + ", b1", "query{elements:[" + p.tree + " column{value:$b1}]}" }, m); }
SYMX_ENTRY(column_conditions) { auto p = any_condition('a'); bool as = symx_choice("as", 2) != 0; expect({ "SELECT " + p.sql + (as ? " AS q1" : "") + " FROM b1", "query{elements:[column{value:" + p.tree + (as ? " name:q1" : "") + "}] from:[@b1]}" }, m); }
// every subset of the clauses
SYMX_ENTRY(clauses) {
    static constexpr variant group[] = { { "", "" }, { " GROUP BY ()", " group_by:{}" }, { " GROUP BY c1", " group_by:{elements:[column{column:$c1}]}" }, { " GROUP BY c1 COLLATE d1, e1 + 1", " group_by:{elements:[column{column:$c1 collation:d1} column{column:binary_expression{left:$e1 operator_kind:plus right:#1}}]}" } };
    auto& q = choose("quantifier", quantifiers); piece p {};
    if (symx_choice("where", 2)) p = p + piece { " WHERE f1 > 1", " where:comparison_predicate{left:$f1 operator_kind:greater_than right:#1}" };
    p = p + any("group", group);
    if (symx_choice("having", 2)) p = p + piece { " HAVING g1 OR h1", " having:binary_expression{left:$g1 operator_kind:or right:$h1}" };
    if (symx_choice("order", 2)) p = p + piece { " ORDER BY i1, j1 DESC", " order_by:[{key:$i1} {key:$j1 direction:desc}]" };
    if (symx_choice("limit", 2)) p = p + piece { " LIMIT k1", " limit:$k1" };
    expect({ std::string { "SELECT " } + q.sql + "a1 FROM b1" + p.sql, std::string { "query{" } + q.tree + "elements:[column{value:$a1}] from:[@b1]" + p.tree + "}" }, m);
}
SYMX_ENTRY(clause_conditions) {
    auto k = symx_choice("clause", 3); auto c = any_condition('a');
    static char const* const s[] = { " WHERE ", " HAVING ", " LIMIT " }; static char const* const t[] = { "where:", "having:", "limit:" };
    expect({ std::string { "SELECT * FROM b1" } + s[k] + c.sql, std::string { "query{elements:[asterisk{}] from:[@b1] " } + t[k] + c.tree + "}" }, m);
}
SYMX_ENTRY(clause_values) {
    auto k = symx_choice("clause", 4); auto c = any_value('a');
    static char const* const s[] = { " WHERE ", " HAVING ", " LIMIT ", " GROUP BY " }; static char const* const t[] = { "where:", "having:", "limit:", "group_by:{elements:[column{column:" };
    expect({ std::string { "SELECT * FROM b1" } + s[k] + c.sql, std::string { "query{elements:[asterisk{}] from:[@b1] " } + t[k] + c.tree + (k == 3 ? "}]}}" : "}") }, m);
}
// clauses out of their order are not accepted
SYMX_ENTRY(clause_order) {
    static char const* const l[] = { " WHERE a1", " GROUP BY b1", " HAVING c1", " ORDER BY d1", " LIMIT 1" };
    auto i = symx_choice("first", 5), j = symx_choice("second", 5); auto s = expand(std::string { "SELECT * FROM e1" } + l[i] + l[j], true);
    symx_assert(run(s).ok == (i < j), "the clauses of a query have one order and none appears twice"); symx_reach("done");
}
SYMX_ENTRY(sorting) { auto p = list(1 + symx_choice("more", 2), [](unsigned i) { return i ? sort('b', 1) : sort('a', 1); }); expect({ "SELECT * FROM z1 ORDER BY " + p.sql, "query{elements:[asterisk{}] from:[@z1] order_by:[" + p.tree + "]}" }, m); }
SYMX_ENTRY(sorting_values) { auto p = sort('a', value_forms); expect({ "SELECT * FROM z1 ORDER BY " + p.sql, "query{elements:[asterisk{}] from:[@z1] order_by:[" + p.tree + "]}" }, m); }
SYMX_ENTRY(sources) { expect(from(source(symx_choice("source", 5), 'a')), m); }
SYMX_ENTRY(sources3) { expect(from(list(3, [](unsigned i) { static constexpr variant l[] = { { "@", "@@" }, { "@ q1", "table_reference{name:@ correlation:{correlation_name:q1}}" }, { "(TABLE @) q1", "subquery{expression:@@ correlation:{correlation_name:q1}}" }, { "@ CROSS JOIN z1", "join{left:@@ operator_kind:cross right:@z1}" } };
    auto k = symx_choice("source", 4); std::string n = letter(static_cast<char>('a' + i)); std::string s = fill(l[k].sql, n);
    std::string t = k == 0 ? "@" + n : k == 1 ? "table_reference{name:" + n + " correlation:{correlation_name:q1}}" : k == 2 ? "subquery{expression:@" + n + " correlation:{correlation_name:q1}}" : "join{left:@" + n + " operator_kind:cross right:@z1}"; return piece { s, t }; })), m); }
SYMX_ENTRY(source_needs_alias) {
    static char const* const l[] = { "(TABLE a1)", "LATERAL (TABLE a1)", "UNNEST (a1)", "UNNEST (a1) WITH ORDINALITY", "a1 APPLY b1(c1)", "a1 b1 ()", "a1 AS", "ONLY a1", "(a1)", "((TABLE a1) b1)", "LATERAL a1 b1", "UNNEST a1 b1" };
    reject(std::string { "SELECT * FROM " } + l[symx_choice("source", 12)], "an item of FROM needs its parts"); symx_reach("done");
}
// ---- joins
namespace {
struct join_kind { char const* sql; char const* kind; int form; }; // form 0: no condition, 1: condition, 2: apply
constexpr join_kind joins[] = {
    { "CROSS JOIN", "cross", 0 }, { "NATURAL JOIN", "natural_inner", 0 }, { "NATURAL INNER JOIN", "natural_inner", 0 }, { "NATURAL LEFT JOIN", "natural_left_outer", 0 }, { "NATURAL LEFT OUTER JOIN", "natural_left_outer", 0 }, { "NATURAL RIGHT JOIN", "natural_right_outer", 0 }, { "NATURAL RIGHT OUTER JOIN", "natural_right_outer", 0 }, { "NATURAL FULL JOIN", "natural_full_outer", 0 }, { "NATURAL FULL OUTER JOIN", "natural_full_outer", 0 }, { "UNION JOIN", "union", 0 },
    { "JOIN", "inner", 1 }, { "INNER JOIN", "inner", 1 }, { "LEFT JOIN", "left_outer", 1 }, { "LEFT OUTER JOIN", "left_outer", 1 }, { "RIGHT JOIN", "right_outer", 1 }, { "RIGHT OUTER JOIN", "right_outer", 1 }, { "FULL JOIN", "full_outer", 1 }, { "FULL OUTER JOIN", "full_outer", 1 },
    { "APPLY", "", 2 }, { "CROSS APPLY", " operator_kind:cross", 2 }, { "OUTER APPLY", " operator_kind:outer", 2 },
};
constexpr unsigned join_count = sizeof(joins) / sizeof(joins[0]);
constexpr unsigned few[] = { 0, 1, 9, 10, 12, 16, 18, 19 };
struct on { std::string sql, tree; };
on specification(char c, unsigned form) {
    std::string n = letter(c);
    switch (form) {
        case 0: return { " ON " + n, " specification:condition{expression:$" + n + "}" };
        case 1: return { " USING (" + n + ")", " specification:columns{columns:[" + n + "]}" };
        case 2: return { " USING (" + n + ", y1)", " specification:columns{columns:[" + n + " y1]}" };
        case 3: return { " ON " + n + " = 1 AND y1", " specification:condition{expression:binary_expression{left:comparison_predicate{left:$" + n + " operator_kind:equals right:#1} operator_kind:and right:$y1}}" };
        default: return { " ON EXISTS (TABLE " + n + ") OR NOT y1", " specification:condition{expression:binary_expression{left:table_predicate{operator_kind:exists operand:@" + n + "} operator_kind:or right:unary_expression{operator_kind:not operand:$y1}}}" };
    }
}
/// l JOIN r of some kind; the right side of an apply is a function named like the letter
piece joined(piece const& l, unsigned kind, piece const& r, char c, on const& s) {
    auto& j = joins[kind]; std::string n = letter(c);
    if (j.form == 2) return { l.sql + " " + j.sql + " " + n + "(1) q1", "apply{operand:" + l.tree + j.kind + " name:" + n + " arguments:[#1] correlation:{correlation_name:q1}}" };
    return { l.sql + " " + j.sql + " " + r.sql + (j.form ? s.sql : ""), "join{left:" + l.tree + " operator_kind:" + j.kind + " right:" + r.tree + (j.form ? s.tree : "") + "}" };
}
piece paren(piece p) { return { "(" + p.sql + ")", p.tree }; }
}
SYMX_ENTRY(join_kinds) { auto k = symx_choice("join", join_count); auto s = specification('d', joins[k].form == 1 ? symx_choice("specification", 5) : 0); expect(from(joined(plain("a1"), k, plain("b1"), 'b', s)), m); }
SYMX_ENTRY(join_operands) { auto k = few[symx_choice("join", 8)]; auto l = source(symx_choice("left", 5), 'a'); expect(from(joined(l, k, plain("b1"), 'b', specification('d', 0))), m); }
SYMX_ENTRY(join_right) { auto k = few[symx_choice("join", 6)]; auto r = source(symx_choice("right", 5), 'a'); expect(from(joined(plain("b1"), k, r, 'a', specification('d', 1))), m); }
SYMX_ENTRY(join_chain) { auto i = symx_choice("join", join_count), j = symx_choice("join", join_count); expect(from(joined(joined(plain("a1"), i, plain("b1"), 'b', specification('d', 0)), j, plain("c1"), 'c', specification('e', 1))), m); }
SYMX_ENTRY(join_chain3) { piece p = plain("a1"); for (unsigned i = 0; i < 3; ++i) p = joined(p, few[symx_choice("join", 8)], plain(letter(static_cast<char>('b' + i))), static_cast<char>('b' + i), specification(static_cast<char>('f' + i), i)); expect(from(p), m); }
SYMX_ENTRY(join_chain4) { piece p = plain("a1"); for (unsigned i = 0; i < 4; ++i) p = joined(p, few[symx_choice("join", 8)], plain(letter(static_cast<char>('b' + i))), static_cast<char>('b' + i), specification(static_cast<char>('f' + i), i)); expect(from(p), m); }
// a join in parentheses, on either side
SYMX_ENTRY(join_parenthesized) {
    auto i = symx_choice("join", join_count), j = few[symx_choice("join", 6)];
    auto in = paren(joined(plain("a1"), i, plain("b1"), 'b', specification('d', 0)));
    expect(from(symx_choice("side", 2) ? joined(plain("c1"), j, in, 'x', specification('e', 2)) : joined(in, j, plain("c1"), 'c', specification('e', 2))), m);
}
// the right side may be a join of its own when both have conditions: a JOIN b JOIN c ON 1 ON 2
SYMX_ENTRY(join_nested) {
    auto i = 10 + symx_choice("join", 8), j = 10 + symx_choice("join", 8); auto inner = joined(plain("b1"), j, plain("c1"), 'c', specification('d', symx_choice("specification", 2)));
    expect(from(joined(plain("a1"), i, inner, 'x', specification('e', symx_choice("specification", 2)))), m);
}
SYMX_ENTRY(join_needs) {
    static char const* const l[] = { "a1 JOIN b1", "a1 LEFT JOIN b1", "a1 CROSS JOIN b1 ON c1", "a1 NATURAL JOIN b1 ON c1", "a1 UNION JOIN b1 USING (c1)", "a1 JOIN b1 USING ()", "a1 JOIN b1 USING c1", "a1 JOIN b1 ON", "a1 CROSS LEFT JOIN b1", "a1 OUTER JOIN b1 ON c1", "a1 NATURAL CROSS JOIN b1", "a1 INNER OUTER JOIN b1 ON c1", "JOIN b1 ON c1", "a1 APPLY b1 c1", "a1 LEFT APPLY b1() c1", "a1 JOIN b1 JOIN c1 ON d1", "a1 JOIN b1 ON c1 USING (d1)" };
    reject(std::string { "SELECT * FROM " } + l[symx_choice("join", 17)], "a join has exactly the parts of its kind"); symx_reach("done");
}
SYMX_ENTRY(apply_arguments) {
    auto k = 18 + symx_choice("apply", 3); auto f = any_name('b', 4); auto a = symx_choice("arguments", 3); auto c = must_alias(); auto v = list(a, [](unsigned i) { return value(static_cast<char>('d' + i), i ? 6 : 0); });
    std::string arg = a ? " arguments:[" + v.tree + "]" : ""; auto& j = joins[k];
    expect(from({ std::string { "a1 " } + j.sql + " " + f.sql + "(" + v.sql + ")" + c.sql, std::string { "apply{operand:@a1" } + j.kind + " name:" + f.tree + arg + c.tree + "}" }), m);
}
// ---- VALUES
SYMX_ENTRY(rows) {
    auto k = 1 + symx_choice("rows", 2);
    auto p = list(k, [](unsigned i) {
        char c = static_cast<char>('a' + 4 * i);
        switch (symx_choice("row", 3)) {
            case 0: { auto e = list(1 + symx_choice("columns", 3), [c](unsigned j) { return value(static_cast<char>(c + j), j * 2); }); return piece { "(" + e.sql + ")", "value_constructor{operator_kind:row elements:[" + e.tree + "]}" }; }
            case 1: { auto e = list(1 + symx_choice("columns", 3), [c](unsigned j) { return value(static_cast<char>(c + j), j * 2); }); return piece { "ROW (" + e.sql + ")", "value_constructor{operator_kind:row elements:[" + e.tree + "]}" }; }
            default: { auto q = query(c, symx_choice("query", 5)); return piece { "(" + q.sql + ")", "subquery{query:" + q.tree + " context_kind:row}" }; }
        }
    });
    expect({ "VALUES " + p.sql, "table_value_constructor{elements:[" + p.tree + "]}" }, m);
}
SYMX_ENTRY(row_values) { auto v = symx_choice("condition", 2) ? any_condition('a') : any_value('a'); expect({ "VALUES (b1, " + v.sql + ", c1)", "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[$b1 " + v.tree + " $c1]}]}" }, m); }
SYMX_ENTRY(names) { auto a = any_name('a', 4), b = any_name('b', 4); auto k = symx_choice("place", 3); expect(k == 0 ? piece { "TABLE " + a.sql, "@" + a.tree } : k == 1 ? piece { "SELECT " + a.sql + " FROM " + b.sql, "query{elements:[column{value:$" + a.tree + "}] from:[@" + b.tree + "]}" } : piece { "SELECT " + a.sql + ".*, " + b.sql + " . *", "query{elements:[asterisk{qualifier:$" + a.tree + "} asterisk{qualifier:$" + b.tree + "}]}" }, m); }
