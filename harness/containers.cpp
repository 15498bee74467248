// Regions, results and diagnostics as values.
#include "common.h"
#include <sstream>
#include <functional>
#include <takatori/document/basic_document.h>
#include <mizugaki/ast/common/regioned.h>
using namespace h; using mizugaki::parser::sql_parser_result; using mizugaki::parser::sql_parser_diagnostic; using mizugaki::ast::common::regioned;
namespace {
constexpr std::size_t npos = static_cast<std::size_t>(-1);
std::size_t position(char const* n) { return static_cast<std::size_t>(symx_bits(n, 64)); }
node_region any(char const* b, char const* e) { auto x = position(b), y = position(e); return { x, y }; }
/// a region of a document, or none
node_region proper(char const* b, char const* e, bool& valid) { valid = symx_choice("valid", 2) != 0; if (!valid) return {}; auto r = any(b, e); symx_assume((r.begin <= r.end) & (r.end != npos)); return r; }
bool is(node_region a, node_region b) { return (a.begin == b.begin) & (a.end == b.end); }
}
// any two numbers: validity, equality, accessors, hash
SYMX_ENTRY(region_values) {
    auto a = any("a.begin", "a.end"), b = any("b.begin", "b.end");
    symx_assert(static_cast<bool>(a) == ((a.begin != npos) & (a.end != npos)), "a region is valid exactly if both its ends are");
    symx_assert((a.first() == a.begin) & (a.last() == a.end) & (a.size() == a.end - a.begin), "a region tells its ends and size");
    bool e = a == b; symx_assert(e == is(a, b), "two regions are equal exactly if both ends are"); symx_assert((a != b) != e, "inequality is the opposite of equality");
    std::hash<node_region> h {}; if (is(a, b)) symx_assert(h(a) == h(b), "equal regions have equal hashes");
    symx_assert(!static_cast<bool>(node_region {}), "a region made without positions is not valid"); symx_reach("done");
}
// union of regions
SYMX_ENTRY(region_union) {
    bool x = false, y = false, z = false; auto a = proper("a.begin", "a.end", x), b = proper("b.begin", "b.end", y), c = proper("c.begin", "c.end", z);
    auto u = a | b;
    symx_assert(static_cast<bool>(u) == (x | y), "the union of regions is valid exactly if one of them is");
    if (x) symx_assert((u.begin <= a.begin) & (a.end <= u.end), "the union includes both regions"); if (y) symx_assert((u.begin <= b.begin) & (b.end <= u.end), "the union includes both regions");
    if (x | y) symx_assert((x & (u.begin == a.begin)) | (y & (u.begin == b.begin)), "the union is no larger than needed"), symx_assert((x & (u.end == a.end)) | (y & (u.end == b.end)), "the union is no larger than needed");
    symx_assert(is(u, b | a), "the union does not depend on the order"); symx_assert(is((a | b) | c, a | (b | c)), "the union does not depend on the grouping");
    symx_assert(is(a | a, a), "a region is its union with itself"); symx_assert(is(a | node_region {}, a) & is(node_region {} | a, a), "a region that is not valid adds nothing"); symx_reach("done");
}
// parts of a region that lie in it
SYMX_ENTRY(region_parts) {
    auto b = static_cast<std::size_t>(symx_bits("begin", 32)), n = static_cast<std::size_t>(symx_bits("size", 32)), o = static_cast<std::size_t>(symx_bits("offset", 32)), l = static_cast<std::size_t>(symx_bits("length", 32));
    if (symx_choice("to the end", 2)) l = npos;
    node_region r { b, b + n };
    symx_assume(o <= n);
    symx_assert(is(r(o), { r.begin + o, r.end }), "a part without size extends to the end");
    if (l == npos) symx_assert(is(r(o, l), { r.begin + o, r.end }), "a part without size extends to the end");
    else if (l <= n - o) symx_assert(is(r(o, l), { r.begin + o, r.begin + o + l }), "a part has its offset and size");
    else symx_assert(is(r(o, l), { r.begin + o, r.end }), "a part ends where the region does");
    symx_reach("done");
}
// text of a region: small numbers
SYMX_ENTRY(region_text) {
    auto b = symx_bits("begin", 4), e = symx_bits("end", 4); symx_assume((b < 10) & (e < 10)); auto v = symx_choice("valid", 2);
    std::ostringstream o {}; o << (v ? node_region { b, e } : node_region {}); std::string x { "region()" };
    if (v) { x = "region(begin="; x += static_cast<char>('0' + b); x += ", end="; x += static_cast<char>('0' + e); x += ')'; }
    same(o.str(), x, "a region is printed with its ends"); symx_reach("done");
}
// values with regions: the value decides equality, the region is kept
SYMX_ENTRY(regioned_values) {
    auto x = static_cast<unsigned>(symx_bits("x", 32)), y = static_cast<unsigned>(symx_bits("y", 32)); auto a = any("a.begin", "a.end"), b = any("b.begin", "b.end");
    regioned<unsigned> p { x, a }, q { y, b }, d { x };
    symx_assert((*p == x) & (p.value() == x) & is(p.region(), a), "a value with a region has both"); symx_assert(!static_cast<bool>(d.region()), "a value without region has none");
    bool e = p == q; symx_assert(e == (x == y), "values with regions are equal exactly if the values are"); symx_assert((p != q) != e, "inequality is the opposite of equality");
    bool f = p == y; symx_assert(f == (x == y), "a value with a region equals a plain value exactly if the values are equal");
    q = p; symx_assert((*q == x) & is(q.region(), a), "an assigned value keeps value and region"); regioned<unsigned> m { std::move(q) }; symx_assert((*m == x) & is(m.region(), a), "a moved value keeps value and region");
    m.value() = y; symx_assert((*m == y) & (*p == x) & is(m.region(), a), "setting a value leaves the region and other values alone"); m.region() = b; symx_assert((*m == y) & is(m.region(), b) & is(p.region(), a), "setting a region leaves the value and other regions alone"); symx_reach("done");
}
namespace {
constexpr sql_parser_code codes[] = { sql_parser_code::unknown, sql_parser_code::system, sql_parser_code::syntax_error, sql_parser_code::unsupported_feature, sql_parser_code::invalid_character, sql_parser_code::invalid_token, sql_parser_code::unexpected_token, sql_parser_code::unexpected_eof, sql_parser_code::exceed_number_of_elements };
}
// diagnostics: any code, message and region of a document
SYMX_ENTRY(diagnostics) {
    auto code = codes[symx_choice("code", 9)]; std::string m {}; for (unsigned n = symx_choice("message", 3); n; --n) m += static_cast<char>(symx_byte("byte"));
    std::string t {}; auto size = symx_choice("size", 5); for (unsigned i = 0; i < size; ++i) t += static_cast<char>(symx_byte("text"));
    auto doc = std::make_shared<takatori::document::basic_document const>("where", t);
    auto b = symx_choice("begin", 5), e = symx_choice("end", 5); symx_assume(b <= e && e <= size);
    sql_parser_diagnostic d { code, m, takatori::util::maybe_shared_ptr<takatori::document::document const> { doc }, { b, e } };
    auto check = [&](sql_parser_diagnostic const& x) {
        symx_assert(x.code() == code && x.message().size() == m.size() && x.region().begin == b && x.region().end == e && x.document().get() == doc.get(), "a diagnostic keeps what it was made from"); same(x.message(), m, "a diagnostic keeps its message");
        symx_assert(x.is_valid() == (code != sql_parser_code::unknown || !m.empty()) && static_cast<bool>(x) == x.is_valid(), "a diagnostic is valid exactly if it has a code or a message");
        auto c = x.contents(); symx_assert(c.size() == e - b, "a diagnostic shows the text of its region"); if (c.size() == e - b) symx_same(c.data(), t.data() + b, c.size(), "a diagnostic shows the text of its region");
    };
    check(d); auto f = d; check(f); auto g = std::move(f); check(g); sql_parser_diagnostic k {}; symx_assert(!k.is_valid() && !k, "a diagnostic made from nothing is not valid"); k = g; check(k);
    g.code() = sql_parser_code::syntax_error; g.message() = "other"; g.region() = { 0, 0 }; g.document() = {}; check(k); check(d);
    symx_assert(g.code() == sql_parser_code::syntax_error && g.message() == "other" && g.region().end == 0 && !g.document() && g.contents().empty(), "each part of a diagnostic can be set");
    sql_parser_result r { std::move(k) }; symx_assert(!r.has_value() && !r && r.has_diagnostic() == (code != sql_parser_code::unknown || !m.empty()) && !r.value(), "a result made from a diagnostic has no value"); check(r.diagnostic());
    auto q = std::move(r); check(q.diagnostic()); symx_assert(!q.has_value(), "a moved result keeps what it has"); symx_reach("done");
}
// results: a value, and the counts, any numbers
SYMX_ENTRY(results) {
    sql_parser_result e {}; symx_assert(!e.has_value() && !e.has_diagnostic() && !e && e.tree_node_count() == 0 && e.max_tree_depth() == 0, "a result made from nothing has nothing");
    auto p = sql_parser {}("-", expand("SELECT a1; DROP TABLE b1", true)); symx_assert(p.has_value(), "the document is accepted"); if (!p.has_value()) return;
    auto raw = p.value().get(); auto text = tree(*raw); sql_parser_result r { std::move(p.value()) };
    symx_assert(!p.has_value() && !p, "a result whose value was taken has none");
    auto n = position("nodes"), d = position("depth"); r.tree_node_count() = n; r.max_tree_depth() = d;
    auto check = [&](sql_parser_result& x) { auto const& y = x; symx_assert(x.has_value() && static_cast<bool>(x) && !x.has_diagnostic() && x.value().get() == raw && (*x).get() == raw && y.value().get() == raw && (*y).get() == raw && !y.diagnostic(), "a result made from a value has it and no diagnostic"); symx_assert((y.tree_node_count() == n) & (y.max_tree_depth() == d), "a result keeps the counts"); same(tree(*y.value()), text, "a result keeps its value"); };
    check(r); auto m = std::move(r); check(m); e = std::move(m); check(e); symx_assert(!m.has_value(), "a result that was moved has no value"); symx_reach("done");
}
