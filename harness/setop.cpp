// Set operations: precedence, grouping, quantifiers, column correspondence, WITH.
#include "common.h"
using namespace h;
namespace {
struct operation { char const* sql; char const* kind; bool tight; };
constexpr operation ops[] = { { "UNION", "union", false }, { "OUTER UNION", "outer_union", false }, { "EXCEPT", "except", false }, { "INTERSECT", "intersect", true } };
constexpr variant quantifiers[] = { { "", "" }, { " ALL", " quantifier:all" }, { " DISTINCT", " quantifier:distinct" } };
constexpr variant corresponding[] = { { "", "" }, { " CORRESPONDING", " corresponding:{}" }, { " CORRESPONDING BY (x1)", " corresponding:{column_names:[x1]}" }, { " CORRESPONDING BY (x1, y1)", " corresponding:{column_names:[x1 y1]}" } };
struct piece { std::string sql, tree; };
struct step { piece op; std::string kind, quantifier, columns; bool tight; };
piece operand(unsigned i, unsigned form) {
    std::string n { static_cast<char>('a' + i), '1' };
    switch (form) {
        case 0: return { "TABLE " + n, "@" + n };
        case 1: return { "VALUES (" + n + ")", "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[$" + n + "]}]}" };
        case 2: return { "SELECT " + n, "query{elements:[column{value:$" + n + "}]}" };
        case 3: return { "SELECT " + n + " FROM m1 ORDER BY n1 LIMIT 1", "query{elements:[column{value:$" + n + "}] from:[@m1] order_by:[{key:$n1}] limit:#1}" };
        case 4: return { "SELECT " + n + " FROM m1, n1", "query{elements:[column{value:$" + n + "}] from:[@m1 @n1]}" };
        case 5: return { "(TABLE " + n + ")", "@" + n };
        default: return { "(TABLE " + n + " EXCEPT VALUES (1))", "binary_expression{left:@" + n + " operator_kind:except right:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]}}" };
    }
}
std::string combine(std::string const& l, step const& s, std::string const& r) { return "binary_expression{left:" + l + " operator_kind:" + s.kind + s.quantifier + " right:" + r + s.columns + "}"; }
/// INTERSECT groups first, then the others, each from the left
piece chain(std::vector<piece> const& e, std::vector<step> const& s) {
    piece r {}; r.sql = e[0].sql; for (std::size_t i = 0; i < s.size(); ++i) r.sql += " " + s[i].op.sql + " " + e[i + 1].sql;
    std::string loose {}; step const* pending = nullptr; std::string tight = e[0].tree;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i].tight) { tight = combine(tight, s[i], e[i + 1].tree); continue; }
        loose = pending ? combine(loose, *pending, tight) : tight; pending = &s[i]; tight = e[i + 1].tree;
    }
    r.tree = pending ? combine(loose, *pending, tight) : tight;
    return r;
}
step pick(bool options) {
    auto& o = ops[symx_choice("operator", 4)]; step s {}; s.op.sql = o.sql; s.kind = o.kind; s.tight = o.tight;
    if (options) { auto& q = choose("quantifier", quantifiers); auto& c = choose("columns", corresponding); s.op.sql += std::string { q.sql } + c.sql; s.quantifier = q.tree; s.columns = c.tree; }
    return s;
}
void chained(unsigned n, bool options, bool forms, bool in_with = false) {
    std::vector<piece> e {}; std::vector<step> s {};
    for (unsigned i = 0; i <= n; ++i) { e.push_back(operand(i, forms ? symx_choice("operand", 7) : 0)); if (i < n) s.push_back(pick(options)); }
    auto p = chain(e, s);
    if (in_with) { expect("WITH z1 AS (" + p.sql + ") TABLE z1", "with_expression{elements:[{name:z1 expression:" + p.tree + "}] expression:@z1}", "set operations group by precedence"); }
    else if (n == 0 && p.sql[0] == '(') reject(p.sql, "a statement is not a parenthesized query");
    else expect(p.sql, p.tree, "set operations group by precedence");
    symx_reach("done");
}
}
SYMX_ENTRY(operands) { chained(0, false, true); }
SYMX_ENTRY(options) { chained(1, true, false); }
SYMX_ENTRY(forms) { chained(1, false, true); }
SYMX_ENTRY(forms2) { chained(2, false, true); }
SYMX_ENTRY(options2) { chained(2, true, false); }
SYMX_ENTRY(chain3) { chained(3, false, false); }
SYMX_ENTRY(chain4) { chained(4, false, false); }
SYMX_ENTRY(chain5) { chained(5, false, false); }
SYMX_ENTRY(in_with) { chained(3, false, false, true); }
// parentheses override: every way to group three operators
SYMX_ENTRY(parenthesized) {
    auto s0 = pick(false), s1 = pick(false), s2 = pick(false); auto a = operand(0, 0), b = operand(1, 0), c = operand(2, 0), d = operand(3, 0);
    std::string m = "parentheses override the grouping of set operations";
    auto two = [&](piece const& x, step const& s, piece const& y) { return piece { "(" + x.sql + " " + s.op.sql + " " + y.sql + ")", combine(x.tree, s, y.tree) }; };
    piece p {};
    switch (symx_choice("shape", 4)) {
        case 0: p = chain({ a, two(b, s1, c), d }, { s0, s2 }); break;
        case 1: p = chain({ two(a, s0, b), two(c, s2, d) }, { s1 }); break;
        case 2: p = chain({ a, two(b, s1, two(c, s2, d)) }, { s0 }); break;
        default: p = chain({ two(two(a, s0, b), s1, c), d }, { s2 }); break;
    }
    expect(p.sql, p.tree, m.c_str()); symx_reach("done");
}
// WITH covers the whole chain after it; operands cannot have one of their own
SYMX_ENTRY(with) {
    static constexpr variant rec[] = { { "", "" }, { " RECURSIVE", "is_recursive:yes " } };
    static constexpr variant columns[] = { { "", "" }, { " (x1)", " column_names:[x1]" }, { " (x1, y1)", " column_names:[x1 y1]" } };
    auto& r = choose("recursive", rec); auto& c = choose("columns", columns); auto s0 = pick(false), s1 = pick(false);
    auto p = chain({ operand(0, 0), operand(1, 6), operand(2, 1) }, { s0, s1 });
    bool two = symx_choice("elements", 2) != 0;
    expect(std::string { "WITH" } + r.sql + " d1" + c.sql + " AS (TABLE e1)" + (two ? ", f1 AS (TABLE i1)" : "") + " " + p.sql,
        std::string { "with_expression{" } + r.tree + "elements:[{name:d1 expression:@e1" + c.tree + "}" + (two ? " {name:f1 expression:@i1}" : "") + "] expression:" + p.tree + "}", "WITH covers the query that follows");
    symx_reach("done");
}
SYMX_ENTRY(with_operand) {
    auto s0 = pick(true); bool left = symx_choice("left", 2) != 0; std::string w = "(WITH a1 AS (TABLE b1) TABLE c1)", t = "TABLE d1";
    auto o = run(expand((left ? w : t) + " " + s0.op.sql + " " + (left ? t : w), true));
    symx_assert(!o.ok && o.code == sql_parser_code::syntax_error, "an operand of a set operation cannot have a WITH of its own"); symx_reach("done");
}
