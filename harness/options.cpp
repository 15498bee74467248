// Parser options and the per-element-kind table: defaults, independence, look-up by name.
#include "../engine/symx.h"
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <mizugaki/parser/sql_parser_options.h>
using namespace mizugaki::parser;
using K = sql_parser_element_kind;
namespace {
struct spelled { K kind; char const* text; };
constexpr spelled all[] = {
#define S(n) { K::n, #n }
    S(statement), S(schema_element_definition), S(table_element_definition), S(column_constraint_definition), S(column_reference),
    S(storage_parameter), S(set_clause), S(with_element), S(select_element), S(table_reference), S(grouping_element), S(ordering_element),
    S(field_definition), S(row_expression), S(scalar_expression), S(when_clause), S(string_literal_concatenation), S(privilege_action),
    S(privilege_object), S(privilege_user)
#undef S
};
constexpr unsigned count = sizeof(all) / sizeof(all[0]);
K element(char const* label) { auto v = symx_bits(label, 8); symx_assume(v >= static_cast<std::size_t>(sql_parser_element_kind_first) && v <= static_cast<std::size_t>(sql_parser_element_kind_last)); return static_cast<K>(v); }
struct view { std::uint64_t v[6]; };
view read(sql_parser_options const& o) { return { { o.max_expected_candidates(), o.tree_node_limit(), o.tree_depth_limit(), o.enable_description_comments(), static_cast<std::uint64_t>(o.debug()), 0 } }; }
}
SYMX_ENTRY(defaults) {
    sql_parser_options o {};
    symx_assert(o.max_expected_candidates() == 5 && sql_parser_options::default_max_expected_candidates == 5, "default of the candidate limit");
    symx_assert(o.tree_node_limit() == 0 && o.tree_depth_limit() == 0, "tree limits are unbounded by default");
    symx_assert(o.enable_description_comments(), "description comments are enabled by default");
    symx_assert(o.debug() == 0, "debug output is off by default");
    auto k = element("kind");
    symx_assert(o.element_limits()[k] == 0, "element limits are unbounded by default");
    symx_reach("defaults");
}
// an arbitrary sequence of three assignments: every option reads its last assignment
SYMX_ENTRY(writes) {
    sql_parser_options o {};
    auto const& c = o;
    view m = read(c); std::uint64_t limits[count] = {};
    for (int i = 0; i < 3; ++i) {
        unsigned what = symx_choice("option", 6);
        auto v = symx_bits("value", 64);
        switch (what) {
            case 0: o.max_expected_candidates() = v; m.v[0] = v; break;
            case 1: o.tree_node_limit() = v; m.v[1] = v; break;
            case 2: o.tree_depth_limit() = v; m.v[2] = v; break;
            case 3: o.enable_description_comments() = (v & 1) != 0; m.v[3] = v & 1; break;
            case 4: o.debug() = static_cast<int>(v); m.v[4] = static_cast<std::uint64_t>(static_cast<int>(v)); break;
            default: { auto k = element("kind"); o.element_limits()[k] = v; for (unsigned j = 0; j < count; ++j) limits[j] = all[j].kind == k ? v : limits[j]; break; }
        }
        auto n = read(c);
        for (int j = 0; j < 5; ++j) symx_assert(n.v[j] == m.v[j], "an option does not read what was assigned last, or changed with another one");
        auto p = read(static_cast<sql_parser_options const&>(o));
        symx_assert(o.max_expected_candidates() == p.v[0] && o.tree_node_limit() == p.v[1] && o.tree_depth_limit() == p.v[2] && o.enable_description_comments() == (p.v[3] != 0), "the mutable and the constant accessor disagree");
    }
    for (unsigned j = 0; j < count; ++j) symx_assert(c.element_limits()[all[j].kind] == limits[j] && o.element_limits()[all[j].kind] == limits[j], "an element limit does not read what was assigned last, or changed with another one");
    sql_parser_options moved { std::move(o) };
    auto n = read(moved);
    for (int j = 0; j < 5; ++j) symx_assert(n.v[j] == m.v[j], "an option is lost by a move");
    for (unsigned j = 0; j < count; ++j) symx_assert(static_cast<sql_parser_options const&>(moved).element_limits()[all[j].kind] == limits[j], "an element limit is lost by a move");
    sql_parser_options target {}; target.tree_node_limit() = symx_bits("other", 64); target = std::move(moved);
    n = read(target);
    for (int j = 0; j < 5; ++j) symx_assert(n.v[j] == m.v[j], "an option is lost by a move assignment");
    for (unsigned j = 0; j < count; ++j) symx_assert(target.element_limits()[all[j].kind] == limits[j], "an element limit is lost by a move assignment");
    symx_reach("written");
}
// two option objects do not share state
SYMX_ENTRY(separate) {
    sql_parser_options a {}, b {};
    auto k = element("kind"), q = element("other kind");
    auto v = symx_bits("value", 64);
    a.element_limits()[k] = v; a.tree_node_limit() = v; a.tree_depth_limit() = v; a.max_expected_candidates() = v; a.enable_description_comments() = false; a.debug() = 7;
    symx_assert(b.element_limits()[q] == 0 && b.tree_node_limit() == 0 && b.tree_depth_limit() == 0 && b.max_expected_candidates() == 5 && b.enable_description_comments() && b.debug() == 0, "two option objects share state");
    symx_reach("separate");
}
template<unsigned I, class M> void one(M& m, M const& c, K k) {
    if constexpr (I < count) {
        if (all[I].kind == k) symx_assert(&m.template get<all[I].kind>() == &m[k] && &c.template get<all[I].kind>() == &c[k], "access by constant and by value reach different entries");
        one<I + 1>(m, c, k);
    }
}
// the per-kind table as an abstract map
SYMX_ENTRY(map) {
    sql_parser_element_map<std::uint64_t> m {};
    auto const& c = m;
    auto a = element("a"), b = element("b"), q = element("q");
    symx_assert(m[q] == 0 && c[q] == 0, "entries are zero initially");
    auto v = symx_bits("v", 64), w = symx_bits("w", 64);
    m[a] = v; m[b] = w;
    std::uint64_t e = q == b ? w : q == a ? v : 0;
    symx_assert(m[q] == e && c[q] == e, "entries of different kinds are not independent");
    one<0>(m, c, q);
    symx_assert(sizeof(m) >= sizeof(std::uint64_t) * count, "the table has one entry for each kind");
    symx_reach("map");
}
SYMX_ENTRY(map_signed) {
    sql_parser_element_map<int> m {}; auto a = element("a"), q = element("q"); int v = static_cast<int>(symx_bits("v", 32));
    m[a] = v; auto n = m; m[a] = 0;
    symx_assert(n[q] == (q == a ? v : 0) && m[q] == 0, "a copy of the table is independent of the original");
    symx_reach("map");
}
// look-up by name is exactly the inverse of the names
SYMX_ENTRY(find) {
    unsigned n = symx_choice("length", 33);
    char text[33];
    for (unsigned i = 0; i < n; ++i) text[i] = static_cast<char>(symx_byte("c"));
    auto r = find_sql_parser_element_kind(std::string_view { text, n });
    bool any = false; std::size_t which = 0;
    for (auto& s : all) { std::size_t m = __builtin_strlen(s.text); if (m == n && __builtin_memcmp(s.text, text, n) == 0) { any = true; which = static_cast<std::size_t>(s.kind); } }
    symx_assert(r.has_value() == any, "a name is found although it is none, or not found although it is one");
    if (r) symx_assert(static_cast<std::size_t>(*r) == which, "a name leads to another kind");
    symx_reach(r ? "found" : "missing");
}
// printing the table shows every kind once, in order, with its value
SYMX_ENTRY(print) {
    sql_parser_element_map<int> m {};
    std::string e = "{";
    auto a = element("a"); int v = static_cast<int>(symx_choice("v", 3));
    m[a] = v;
    std::ostringstream s; s << m;
    for (unsigned i = 0; i < count; ++i) { if (i) e += ", "; e += all[i].text; e += ':'; e += static_cast<char>('0' + (all[i].kind == a ? v : 0)); }
    e += '}';
    auto t = s.str();
    symx_print(t.data(), t.size()); symx_print(e.data(), e.size());
    symx_assert(t.size() == e.size() && __builtin_memcmp(t.data(), e.data(), e.size()) == 0, "the printed table");
    symx_reach("printed");
}
SYMX_ENTRY(order) {
    symx_assert(sql_parser_element_kind_first == K::statement && sql_parser_element_kind_last == K::privilege_user, "bounds of the kinds");
    auto k = element("kind");
    unsigned hits = 0; for (auto& s : all) hits += s.kind == k;
    symx_assert(hits == 1, "every value between the first and the last kind is exactly one kind");
    symx_reach("order");
}
