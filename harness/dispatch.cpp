// Dispatching a node calls the callback for the class of exactly that node.
#include "corpus.h"
#include <typeinfo>
#include <mizugaki/ast/name/dispatch.h>
#include <mizugaki/ast/literal/dispatch.h>
#include <mizugaki/ast/type/dispatch.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/query/dispatch.h>
#include <mizugaki/ast/table/dispatch.h>
#include <mizugaki/ast/statement/dispatch.h>
using namespace h; using namespace mizugaki::ast;
namespace {
template<class B> struct callback {
    B const* node; std::type_info const* type; unsigned* calls; bool constant;
    template<class T> unsigned operator()(T& n, unsigned a, unsigned& b) {
        ++*calls; ++b;
        symx_assert(typeid(T) == *type, "a node is dispatched as an object of its own class");
        symx_assert(static_cast<B const*>(std::addressof(n)) == node, "a dispatched node is the node itself");
        symx_assert(std::is_const_v<T> == constant, "a dispatched node is constant exactly if the node is");
        return a ^ 0x5aU;
    }
};
/// statement::dispatch, query::dispatch and the others, in the namespace of the object
#define DISPATCH(ns, B, object) do { \
        B& o_ = object; auto r_ = symx_bits("argument", 32); auto a_ = static_cast<unsigned>(r_); \
        { unsigned c_ = 0, k_ = 0; callback<B> f_ { std::addressof(o_), &typeid(o_), &c_, false }; auto x_ = ns::dispatch(f_, o_, a_, k_); symx_assert((c_ == 1) & (k_ == 1), "a node is dispatched once"); symx_assert(x_ == (a_ ^ 0x5aU), "dispatching returns what the callback returns"); } \
        { B const& p_ = o_; unsigned c_ = 0, k_ = 0; callback<B> f_ { std::addressof(p_), &typeid(p_), &c_, true }; auto x_ = ns::dispatch(f_, p_, a_, k_); symx_assert((c_ == 1) & (k_ == 1), "a node is dispatched once"); symx_assert(x_ == (a_ ^ 0x5aU), "dispatching returns what the callback returns"); } \
        seen(o_); \
    } while (0)
template<class T, class B> T* as(B* n) { return typeid(*n) == typeid(T) ? static_cast<T*>(n) : nullptr; }
void reach(std::string_view family, std::string_view kind) { std::string s { family }; s += ' '; s += kind; symx_reach(s.c_str()); }
void seen(name::name const& n) { reach("name", to_string_view(n.node_kind())); }
void seen(literal::literal const& n) { reach("literal", to_string_view(n.node_kind())); }
void seen(type::type const& n) { reach("type", to_string_view(n.node_kind())); }
void seen(scalar::expression const& n) { reach("scalar", to_string_view(n.node_kind())); }
void seen(query::expression const& n) { reach("query", to_string_view(n.node_kind())); }
void seen(query::select_element const& n) { reach("select", to_string_view(n.node_kind())); }
void seen(query::grouping_element const& n) { reach("grouping", to_string_view(n.node_kind())); }
void seen(table::expression const& n) { reach("table", to_string_view(n.node_kind())); }
void seen(table::join_specification const& n) { reach("join", to_string_view(n.node_kind())); }
void seen(statement::statement const& n) { reach("statement", to_string_view(n.node_kind())); }
void seen(statement::table_element const& n) { reach("element", to_string_view(n.node_kind())); }
void seen(statement::constraint const& n) { reach("constraint", to_string_view(n.node_kind())); }
void seen(statement::alter_table_action const& n) { reach("alter table", to_string_view(n.node_kind())); }
void seen(statement::alter_index_action const& n) { reach("alter index", to_string_view(n.node_kind())); }

void visit(name::name& n) { DISPATCH(name, name::name, n); }
void visit(type::type& n) { DISPATCH(type, type::type, n); }
void visit(literal::literal& n) { DISPATCH(literal, literal::literal, n); }
void visit(scalar::expression& n) {
    DISPATCH(scalar, scalar::expression, n);
    if (auto p = as<scalar::literal_expression>(&n)) visit(*p->value());
    if (auto p = as<scalar::variable_reference>(&n)) visit(*p->name());
    if (auto p = as<scalar::cast_expression>(&n)) visit(*p->type());
}
void visit(table::expression& n) { DISPATCH(table, table::expression, n); if (auto p = as<table::join>(&n)) { visit(*p->left()); if (p->specification()) { auto& s = *p->specification(); DISPATCH(table, table::join_specification, s); } } }
void visit(query::expression& n) {
    DISPATCH(query, query::expression, n);
    if (auto p = as<query::query>(&n)) {
        for (auto& e : p->elements()) { DISPATCH(query, query::select_element, *e); if (auto c = as<query::select_column>(e.get())) visit(*c->value()); }
        for (auto& e : p->from()) visit(*e);
        if (p->where()) visit(*p->where());
        if (p->group_by()) for (auto& e : p->group_by()->elements()) DISPATCH(query, query::grouping_element, *e);
    }
    if (auto p = as<query::table_value_constructor>(&n)) for (auto& e : p->elements()) { visit(*e); if (auto v = as<scalar::value_constructor>(e.get())) for (auto& x : v->elements()) visit(*x); }
}
void visit(statement::constraint& n) { DISPATCH(statement, statement::constraint, n); }
void visit(statement::statement& n) {
    DISPATCH(statement, statement::statement, n);
    if (auto p = as<statement::select_statement>(&n)) visit(*p->expression());
    if (auto p = as<statement::alter_table_statement>(&n)) DISPATCH(statement, statement::alter_table_action, *p->action());
    if (auto p = as<statement::alter_index_statement>(&n)) DISPATCH(statement, statement::alter_index_action, *p->action());
    if (auto p = as<statement::update_statement>(&n)) if (p->where()) visit(*p->where());
    if (auto p = as<statement::table_definition>(&n)) for (auto& e : p->elements()) {
        DISPATCH(statement, statement::table_element, *e);
        if (auto c = as<statement::column_definition>(e.get())) { visit(*c->type()); for (auto& x : c->constraints()) visit(*x.body()); }
        if (auto c = as<statement::table_constraint_definition>(e.get())) visit(*c->body());
    }
}
void visit(std::string const& sql) {
    auto r = sql_parser {}("-", sql); symx_assert(r.has_value(), "the statement is accepted"); if (!r.has_value()) return;
    for (auto& s : r.value()->statements()) visit(*s);
    symx_reach("done");
}
}
SYMX_ENTRY(statements) { visit(plain(any_statement().sql)); }
SYMX_ENTRY(others) {
    static char const* const l[] = { "SELECT NULL, DEFAULT, TRUE, 1, 1.5, 1e5, 'a', X'00', DATE '2000-01-01', TIME '00:00:00', TIMESTAMP '2000-01-01 00:00:00'", ";", "UPDATE a SET b = 1 WHERE CURRENT OF c" };
    visit(l[symx_choice("statement", 3)]);
}
// ---- a class of nodes takes exactly the kinds it implements
namespace {
template<class T, class F> void takes(type::kind k, bool own, F make) {
    bool accepted = false;
    try { T n = make(k); accepted = true; symx_assert(n.node_kind() == k, "a node has the kind it was made with"); visit(static_cast<type::type&>(n)); symx_reach("accepted"); }
    catch (std::invalid_argument const& e) { symx_assert(e.what()[0] != 0, "a refusal has a message"); symx_reach("refused"); }
    symx_assert(accepted == own, "a class of nodes takes exactly the kinds it implements");
}
template<class T, class F> void takes(literal::kind k, bool own, F make) {
    bool accepted = false;
    try { T n = make(k); accepted = true; symx_assert(n.node_kind() == k && n.value_kind() == k, "a node has the kind it was made with"); visit(static_cast<literal::literal&>(n)); symx_reach("accepted"); }
    catch (std::invalid_argument const& e) { symx_assert(e.what()[0] != 0, "a refusal has a message"); symx_reach("refused"); }
    symx_assert(accepted == own, "a class of nodes takes exactly the kinds it implements");
}
}
SYMX_ENTRY(type_kinds) {
    using K = mizugaki::ast::type::kind;
    static constexpr K all[] = { K::unknown, K::character, K::character_varying, K::character_large_object, K::bit, K::bit_varying, K::octet, K::octet_varying, K::binary_large_object, K::numeric, K::decimal, K::tiny_integer, K::small_integer, K::integer, K::big_integer, K::float_, K::real, K::double_precision, K::binary_integer, K::binary_float, K::boolean, K::date, K::time, K::timestamp, K::interval, K::row, K::user_defined, K::collection };
    static constexpr unsigned char owner[] = { 1, 2, 2, 1, 3, 3, 4, 4, 1, 5, 5, 1, 1, 1, 1, 1, 1, 1, 6, 6, 1, 1, 7, 7, 0, 0, 0, 0 };
    auto i = symx_choice("kind", 28); auto k = all[i]; auto o = owner[i];
    switch (symx_choice("class", 7)) {
        case 0: takes<type::simple>(k, o == 1, [](K x) { return type::simple { x }; }); break;
        case 1: takes<type::character_string>(k, o == 2, [](K x) { return type::character_string { x, 3 }; }); break;
        case 2: takes<type::bit_string>(k, o == 3, [](K x) { return type::bit_string { x, 3 }; }); break;
        case 3: takes<type::octet_string>(k, o == 4, [](K x) { return type::octet_string { x, 3 }; }); break;
        case 4: takes<type::decimal>(k, o == 5, [](K x) { return type::decimal { x, 3, 1 }; }); break;
        case 5: takes<type::binary_numeric>(k, o == 6, [](K x) { return type::binary_numeric { x, 3 }; }); break;
        default: takes<type::datetime>(k, o == 7, [](K x) { return type::datetime { x, true }; }); break;
    }
    symx_reach("done");
}
SYMX_ENTRY(literal_kinds) {
    using K = mizugaki::ast::literal::kind;
    static constexpr K all[] = { K::boolean, K::exact_numeric, K::approximate_numeric, K::character_string, K::bit_string, K::hex_string, K::date, K::time, K::time_with_time_zone, K::timestamp, K::timestamp_with_time_zone, K::interval, K::null, K::empty, K::default_ };
    static constexpr unsigned char owner[] = { 0, 1, 1, 2, 2, 2, 3, 3, 3, 3, 3, 0, 0, 0, 0 };
    auto i = symx_choice("kind", 15); auto k = all[i]; auto o = owner[i];
    switch (symx_choice("class", 3)) {
        case 0: takes<literal::numeric>(k, o == 1, [](K x) { return literal::numeric { x, "1" }; }); break;
        case 1: takes<literal::string>(k, o == 2, [](K x) { return literal::string { x, "'1'" }; }); break;
        default: takes<literal::datetime>(k, o == 3, [](K x) { return literal::datetime { x, "'1'" }; }); break;
    }
    symx_reach("done");
}
