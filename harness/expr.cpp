// Operator precedence and associativity, decided against a reference operator-precedence
// evaluator that works on the operator sequence, not on the grammar.
#include "common.h"
using namespace h;
namespace {
std::string const values_open = "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[", values_close = "]}]}";
void value(std::string const& sql, std::string const& tree, char const* msg) { expect("VALUES (" + sql + ")", values_open + tree + values_close, msg); }

struct op { char const* text; char const* name; int level; };
// every arithmetic operator; + - || bind weaker than * / %
op const arithmetic[] = { { "+", "plus", 1 }, { "-", "minus", 1 }, { "||", "concatenation", 1 }, { "*", "asterisk", 2 }, { "/", "solidus", 2 }, { "%", "percent", 2 } };
std::string bin(std::string const& l, char const* o, std::string const& r) { return "binary_expression{left:" + l + " operator_kind:" + o + " right:" + r + "}"; }
std::string un(char const* o, std::string const& e) { return std::string { "unary_expression{operator_kind:" } + o + " operand:" + e + "}"; }

/// shunting of operand[0] op[0] operand[1] ...: all levels are left associative
std::string fold(std::vector<std::string> operands, std::vector<op const*> ops) {
    for (int level = 9; level > 0; --level)
        for (std::size_t i = 0; i < ops.size();)
            if (ops[i]->level == level) { operands[i] = bin(operands[i], ops[i]->name, operands[i + 1]); operands.erase(operands.begin() + static_cast<long>(i) + 1); ops.erase(ops.begin() + static_cast<long>(i)); }
            else ++i;
    return operands[0];
}
variant const atoms[] = { { "x1", "$x1" }, { "5", "#5" }, { "'^q'", "'^q'" }, { "f1(5)", "function_invocation{name:f1 arguments:[#5]}" }, { "(x1)", "$x1" } };
}
// a op b op c op d, any operators
SYMX_ENTRY(arithmetic3) {
    auto p = symx_choice("p", 6), q = symx_choice("q", 6), r = symx_choice("r", 6);
    value(std::string { "a1 " } + arithmetic[p].text + " b1 " + arithmetic[q].text + " c1 " + arithmetic[r].text + " d1",
          fold({ "$a1", "$b1", "$c1", "$d1" }, { &arithmetic[p], &arithmetic[q], &arithmetic[r] }), "arithmetic operators: * / % before + - ||, each level from the left");
    symx_reach("done");
}
SYMX_ENTRY(arithmetic4) {
    unsigned o[4]; for (auto& x : o) x = symx_choice("o", 6);
    value(std::string { "a1 " } + arithmetic[o[0]].text + " b1 " + arithmetic[o[1]].text + " c1 " + arithmetic[o[2]].text + " d1 " + arithmetic[o[3]].text + " e1",
          fold({ "$a1", "$b1", "$c1", "$d1", "$e1" }, { &arithmetic[o[0]], &arithmetic[o[1]], &arithmetic[o[2]], &arithmetic[o[3]] }), "arithmetic operators: * / % before + - ||, each level from the left");
    symx_reach("done");
}
// parentheses override
SYMX_ENTRY(parenthesized) {
    auto p = symx_choice("p", 6), q = symx_choice("q", 6); auto where = symx_choice("where", 4); auto& s = arithmetic[p]; auto& t = arithmetic[q];
    auto L = bin(bin("$a1", s.name, "$b1"), t.name, "$c1"), R = bin("$a1", s.name, bin("$b1", t.name, "$c1"));
    std::string o1 = s.text, o2 = t.text;
    if (where == 0) value("(a1" + o1 + "b1)" + o2 + "c1", L, "parentheses group first");
    else if (where == 1) value("a1" + o1 + "(b1" + o2 + "c1)", R, "parentheses group first");
    else if (where == 2) value("((a1)" + o1 + "((b1)" + o2 + "(c1)))", R, "parentheses group first");
    else value("(((a1" + o1 + "b1))" + o2 + "c1)", L, "parentheses group first");
    symx_reach("done");
}
// signs bind tighter than every binary operator
SYMX_ENTRY(signs) {
    auto o = symx_choice("o", 6); auto s = symx_choice("s", 2); auto& a = choose("atom", atoms); auto t = symx_choice("t", 3);
    char const* sign = s ? "-" : "+"; char const* name = s ? "minus" : "plus";
    bool literal = a.sql[0] == '5';
    std::string e = literal ? std::string { "#" } + sign + "5" : un(name, a.tree);
    std::string text = arithmetic[o].text;
    char const* m = "a sign applies to the operand that follows it, before any binary operator";
    if (t == 0) value(std::string { sign } + " " + a.sql + " " + text + " b1", bin(e, arithmetic[o].name, "$b1"), m);
    else if (t == 1) value("b1 " + text + " " + sign + " " + a.sql, bin("$b1", arithmetic[o].name, e), m);
    else value(std::string { "+ " } + sign + " " + a.sql + " " + text + " b1", bin(un("plus", e), arithmetic[o].name, "$b1"), m);
    symx_reach("done");
}
// time zone and cast suffixes bind tighter than arithmetic
SYMX_ENTRY(suffixes) {
    static variant const suffix[] = { { " AT LOCAL", "unary_expression{operator_kind:at_local operand:@}" }, { " AT TIME ZONE z1", "binary_expression{left:@ operator_kind:at_time_zone right:$z1}" },
        { " AT TIME ZONE -z1", "binary_expression{left:@ operator_kind:at_time_zone right:unary_expression{operator_kind:minus operand:$z1}}" }, { " AT TIME ZONE +'^z'", "binary_expression{left:@ operator_kind:at_time_zone right:unary_expression{operator_kind:plus operand:'^z'}}" },
        { " AT TIME ZONE -9", "binary_expression{left:@ operator_kind:at_time_zone right:#-9}" }, { "::INT", "cast_expression{operator_kind:cast operand:@ type:integer{}}" }, { " :: DATE", "cast_expression{operator_kind:cast operand:@ type:date{}}" } };
    auto& s = choose("suffix", suffix); auto o = symx_choice("o", 6); auto t = symx_choice("t", 3); std::string text = arithmetic[o].text, name = arithmetic[o].name;
    char const* m = "AT LOCAL, AT TIME ZONE and :: apply to the primary before them";
    if (t == 0) value(std::string { "a1 " } + text + " b1" + s.sql, bin("$a1", name.c_str(), fill(s.tree, "$b1")), m);
    else if (t == 1) value(std::string { "a1" } + s.sql + " " + text + " b1", bin(fill(s.tree, "$a1"), name.c_str(), "$b1"), m);
    else value(std::string { "(a1 " } + text + " b1)" + s.sql, fill(s.tree, bin("$a1", name.c_str(), "$b1")), m);
    symx_reach("done");
}
namespace {
op const logical[] = { { "OR", "or", 1 }, { "AND", "and", 2 } };
// predicates as (text, tree) over the names a1 b1 c1 of the operand number
variant const predicates[] = {
    { "@", "$@" }, { "@ = y1", "comparison_predicate{left:$@ operator_kind:equals right:$y1}" }, { "@ IS NOT NULL", "binary_expression{left:$@ operator_kind:is_not right:null{}}" },
    { "@ BETWEEN y1 AND z1", "between_predicate{target:$@ left:$y1 right:$z1}" }, { "@ < y1 IS TRUE", "binary_expression{left:comparison_predicate{left:$@ operator_kind:less_than right:$y1} operator_kind:is right:boolean{value:TRUE}}" },
    { "@ + y1 > - z1", "comparison_predicate{left:binary_expression{left:$@ operator_kind:plus right:$y1} operator_kind:greater_than right:unary_expression{operator_kind:minus operand:$z1}}" } };
}
SYMX_ENTRY(logical) {
    auto& p = choose("p", predicates); auto& q = choose("q", predicates); auto& r = choose("r", predicates);
    auto o1 = symx_choice("o1", 2), o2 = symx_choice("o2", 2); auto n = symx_choice("not", 8);
    auto operand = [n](variant const& v, char const* id, unsigned bit, std::string& sql) { std::string e = fill(v.tree, id); sql += (n >> bit) & 1 ? "NOT " : ""; sql += fill(v.sql, id); return (n >> bit) & 1 ? un("not", e) : e; };
    std::string sql, a, b, c;
    a = operand(p, "a1", 0, sql); sql += std::string { " " } + logical[o1].text + " ";
    b = operand(q, "b1", 1, sql); sql += std::string { " " } + logical[o2].text + " ";
    c = operand(r, "c1", 2, sql);
    value(sql, fold({ a, b, c }, { &logical[o1], &logical[o2] }), "NOT before AND before OR, each from the left, all after predicates");
    symx_reach("done");
}
SYMX_ENTRY(logical4) {
    unsigned o[4]; for (auto& x : o) x = symx_choice("o", 2); auto n = symx_choice("not", 32);
    char const* id[] = { "a1", "b1", "c1", "d1", "e1" }; std::string sql; std::vector<std::string> operands; std::vector<op const*> ops;
    for (unsigned i = 0; i < 5; ++i) { if ((n >> i) & 1) sql += "NOT "; sql += id[i]; operands.push_back((n >> i) & 1 ? un("not", std::string { "$" } + id[i]) : std::string { "$" } + id[i]); if (i < 4) { sql += std::string { " " } + logical[o[i]].text + " "; ops.push_back(&logical[o[i]]); } }
    value(sql, fold(operands, ops), "NOT before AND before OR, each from the left");
    symx_reach("done");
}
SYMX_ENTRY(not_forms) {
    auto k = symx_choice("k", 4); char const* m = "NOT nests and groups";
    if (k == 0) value("NOT NOT a1", un("not", un("not", "$a1")), m);
    else if (k == 1) value("NOT (a1 OR b1) AND c1", bin(un("not", bin("$a1", "or", "$b1")), "and", "$c1"), m);
    else if (k == 2) value("(a1 OR b1) AND (c1 OR d1)", bin(bin("$a1", "or", "$b1"), "and", bin("$c1", "or", "$d1")), m);
    else value("a1 AND NOT b1 = c1", bin("$a1", "and", un("not", "comparison_predicate{left:$b1 operator_kind:equals right:$c1}")), m);
    symx_reach("done");
}
namespace {
struct cmp { char const* text; char const* name; bool extended; };
cmp const comparisons[] = { { "=", "equals", false }, { "<>", "not_equals", false }, { "!=", "not_equals_alternative", false }, { "<", "less_than", false }, { ">", "greater_than", false },
    { "<=", "less_than_or_equals", false }, { ">=", "greater_than_or_equals", false }, { "<@", "contains", true }, { "@>", "is_contained_by", true }, { "&&", "have_elements_in_common", true } };
std::string compare(cmp const& c, std::string const& l, std::string const& r) { return std::string { c.extended ? "binary_expression{left:" : "comparison_predicate{left:" } + l + " operator_kind:" + c.name + " right:" + r + "}"; }
variant const sides[] = { { "a1", "$a1" }, { "a1 * 5", "binary_expression{left:$a1 operator_kind:asterisk right:#5}" }, { "-a1", "unary_expression{operator_kind:minus operand:$a1}" },
    { "ROW(a1, 5)", "value_constructor{operator_kind:row elements:[$a1 #5]}" }, { "(a1, 5)", "value_constructor{operator_kind:row elements:[$a1 #5]}" }, { "(SELECT a1)", "subquery{query:query{elements:[column{value:$a1}]} context_kind:scalar}" } };
std::string strip(std::string const& t, char from, char to) { std::string r = t; for (std::size_t i = 0; i + 1 < r.size(); ++i) if (r[i] == from && r[i + 1] == '1') r[i] = to; return r; }
}
SYMX_ENTRY(comparison) {
    auto& c = comparisons[symx_choice("op", 10)]; auto& l = choose("left", sides); auto& r = choose("right", sides); bool blank = symx_choice("blank", 2);
    std::string s = blank ? " " : "";
    value(l.sql + s + c.text + s + strip(r.sql, 'a', 'b'), compare(c, l.tree, strip(r.tree, 'a', 'b')), "a comparison keeps its operator and the order of its sides");
    symx_reach("done");
}
SYMX_ENTRY(comparison_not_chained) {
    auto& c = comparisons[symx_choice("op", 10)]; auto& d = comparisons[symx_choice("op2", 10)];
    reject("VALUES (a1 " + std::string { c.text } + " b1 " + d.text + " c1)", "comparisons do not associate");
    symx_reach("done");
}
SYMX_ENTRY(quantified) {
    auto& c = comparisons[symx_choice("op", 7)]; static variant const q[] = { { "ALL", "all" }, { "SOME", "some" }, { "ANY", "any" } }; auto& k = choose("quantifier", q); auto& l = choose("left", sides);
    static variant const sub[] = { { "(TABLE t1)", "@t1" }, { "(SELECT b1)", "query{elements:[column{value:$b1}]}" }, { "(VALUES (5))", "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#5]}]}" } }; auto& s = choose("sub", sub);
    value(std::string { l.sql } + " " + c.text + " " + k.sql + " " + s.sql, std::string { "quantified_comparison_predicate{left:" } + l.tree + " operator_kind:" + c.name + " quantifier:" + k.tree + " right:" + s.tree + "}", "a quantified comparison keeps operator, quantifier and query");
    symx_reach("done");
}
SYMX_ENTRY(predicate_forms) {
    static variant const form[] = {
        { "BETWEEN b1 AND c1", "between_predicate{target:@ left:$b1!1 right:$c1}" }, { "BETWEEN SYMMETRIC b1 AND c1", "between_predicate{target:@ left:$b1!1 operator_kind:symmetric right:$c1}" }, { "BETWEEN ASYMMETRIC b1 AND c1", "between_predicate{target:@ left:$b1!1 operator_kind:asymmetric right:$c1}" },
        { "IN (b1, 5)", "in_predicate{left:@!1 right:table_value_constructor{elements:[$b1 #5]}}" }, { "IN (b1)", "in_predicate{left:@!1 right:table_value_constructor{elements:[$b1]}}" }, { "IN (SELECT b1)", "in_predicate{left:@!1 right:query{elements:[column{value:$b1}]}}" },
        { "LIKE b1", "pattern_match_predicate{match_value:@!1 operator_kind:like pattern:$b1}" }, { "LIKE b1 ESCAPE '^e'", "pattern_match_predicate{match_value:@!1 operator_kind:like pattern:$b1 escape:'^e'}" },
        { "SIMILAR TO b1", "pattern_match_predicate{match_value:@!1 operator_kind:similar_to pattern:$b1}" }, { "SIMILAR TO b1 ESCAPE c1", "pattern_match_predicate{match_value:@!1 operator_kind:similar_to pattern:$b1 escape:$c1}" } };
    auto& f = choose("form", form); auto& l = choose("left", sides); bool n = symx_choice("not", 2);
    std::string t = fill(f.tree, l.tree); auto at = t.find("!1"); t.replace(at, 2, n ? " is_not:yes" : "");
    value(std::string { l.sql } + (n ? " NOT " : " ") + f.sql, t, "a predicate keeps its operands, its negation and its options");
    symx_reach("done");
}
SYMX_ENTRY(predicate_others) {
    static variant const form[] = {
        { "EXISTS (TABLE t1)", "table_predicate{operator_kind:exists operand:@t1}" }, { "UNIQUE (SELECT a1)", "table_predicate{operator_kind:unique operand:query{elements:[column{value:$a1}]}}" },
        { "a1 OVERLAPS b1", "binary_expression{left:$a1 operator_kind:overlaps right:$b1}" }, { "(a1, b1) OVERLAPS (c1, d1)", "binary_expression{left:value_constructor{operator_kind:row elements:[$a1 $b1]} operator_kind:overlaps right:value_constructor{operator_kind:row elements:[$c1 $d1]}}" } };
    static variant const truth[] = { { "TRUE", "boolean{value:TRUE}" }, { "FALSE", "boolean{value:FALSE}" }, { "UNKNOWN", "boolean{value:UNKNOWN}" }, { "NULL", "null{}" } };
    auto& f = choose("form", form); auto k = symx_choice("is", 3); auto& t = choose("truth", truth);
    if (k == 0) value(f.sql, f.tree, "existence and overlap predicates");
    else value(std::string { f.sql } + (k == 1 ? " IS " : " IS NOT ") + t.sql, bin(f.tree, k == 1 ? "is" : "is_not", t.tree), "a truth test keeps its negation and its truth value");
    symx_reach("done");
}
