// Visits every node and element of a tree as an object of its own class.
#pragma once
#include <memory>
#include <optional>
#include <vector>
#include <mizugaki/ast/name/dispatch.h>
#include <mizugaki/ast/literal/dispatch.h>
#include <mizugaki/ast/type/dispatch.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/query/dispatch.h>
#include <mizugaki/ast/table/dispatch.h>
#include <mizugaki/ast/statement/dispatch.h>
namespace h {
namespace ma = mizugaki::ast;
/// calls f with every node and element, f.base with every polymorphic node as its base class
template<class F> struct walker {
    F& f;
    template<class T> void each(std::vector<T> const& l) { for (auto& e : l) go(e); }
    template<class T> void go(std::vector<T> const& l) { each(l); }
    template<class T> void go(std::optional<T> const& e) { if (e) go(*e); }
    template<class T> void go(std::unique_ptr<T> const& e) { if (e) go(*e); }
    void go(ma::name::name const& n) { f.base(n); ma::name::dispatch(*this, n); }
    void go(ma::literal::literal const& n) { f.base(n); ma::literal::dispatch(*this, n); }
    void go(ma::type::type const& n) { f.base(n); ma::type::dispatch(*this, n); }
    void go(ma::scalar::expression const& n) { f.base(n); ma::scalar::dispatch(*this, n); }
    void go(ma::query::expression const& n) { f.base(n); ma::query::dispatch(*this, n); }
    void go(ma::query::select_element const& n) { f.base(n); ma::query::dispatch(*this, n); }
    void go(ma::query::grouping_element const& n) { f.base(n); ma::query::dispatch(*this, n); }
    void go(ma::table::expression const& n) { f.base(n); ma::table::dispatch(*this, n); }
    void go(ma::table::join_specification const& n) { f.base(n); ma::table::dispatch(*this, n); }
    void go(ma::statement::statement const& n) { f.base(n); ma::statement::dispatch(*this, n); }
    void go(ma::statement::table_element const& n) { f.base(n); ma::statement::dispatch(*this, n); }
    void go(ma::statement::constraint const& n) { f.base(n); ma::statement::dispatch(*this, n); }
    void go(ma::statement::alter_table_action const& n) { f.base(n); ma::statement::dispatch(*this, n); }
    void go(ma::statement::alter_index_action const& n) { f.base(n); ma::statement::dispatch(*this, n); }
    // elements that are not polymorphic
    void go(ma::common::sort_element const& e) { f(e); go(e.key()); go(e.collation()); }
    void go(ma::common::target_element const& e) { f(e); go(e.target()); go(e.indicator()); }
    void go(ma::statement::storage_parameter const& e) { f(e); go(e.name()); go(e.value()); }
    void go(ma::statement::set_element const& e) { f(e); go(e.target()); go(e.value()); }
    void go(ma::statement::column_constraint_definition const& e) { f(e); go(e.name()); go(e.body()); }
    void go(ma::statement::privilege_action const& e) { f(e); }
    void go(ma::statement::privilege_object const& e) { f(e); go(e.object_name()); }
    void go(ma::statement::privilege_user const& e) { f(e); go(e.authorization_identifier()); }
    void go(ma::query::with_element const& e) { f(e); go(e.name()); go(e.column_names()); go(e.expression()); }
    void go(ma::query::group_by_clause const& e) { f(e); go(e.elements()); }
    void go(ma::query::corresponding_clause const& e) { f(e); go(e.column_names()); }
    void go(ma::table::correlation_clause const& e) { f(e); go(e.correlation_name()); go(e.column_names()); }
    void go(ma::scalar::case_when_clause const& e) { f(e); go(e.when()); go(e.result()); }
    void go(ma::type::field_definition const& e) { f(e); go(e.name()); go(e.type()); go(e.collation()); }
    // nodes of each class
    void operator()(ma::statement::empty_statement const& n) { f(n); }
    void operator()(ma::statement::select_statement const& n) { f(n); go(n.expression()); go(n.targets()); }
    void operator()(ma::statement::insert_statement const& n) { f(n); go(n.table_name()); go(n.columns()); go(n.expression()); }
    void operator()(ma::statement::update_statement const& n) { f(n); go(n.table_name()); go(n.alias_name()); go(n.elements()); go(n.where()); }
    void operator()(ma::statement::delete_statement const& n) { f(n); go(n.table_name()); go(n.alias_name()); go(n.where()); }
    void operator()(ma::statement::table_definition const& n) { f(n); go(n.name()); go(n.elements()); go(n.parameters()); }
    void operator()(ma::statement::index_definition const& n) { f(n); go(n.name()); go(n.table_name()); go(n.keys()); go(n.values()); go(n.predicate()); go(n.parameters()); }
    void operator()(ma::statement::view_definition const& n) { f(n); go(n.name()); go(n.columns()); go(n.query()); go(n.parameters()); }
    void operator()(ma::statement::sequence_definition const& n) { f(n); go(n.name()); go(n.type()); go(n.initial_value()); go(n.increment_value()); go(n.min_value()); go(n.max_value()); go(n.owner()); }
    void operator()(ma::statement::schema_definition const& n) { f(n); go(n.name()); go(n.user_name()); go(n.elements()); }
    void operator()(ma::statement::alter_table_statement const& n) { f(n); go(n.name()); go(n.action()); }
    void operator()(ma::statement::alter_index_statement const& n) { f(n); go(n.name()); go(n.action()); }
    void operator()(ma::statement::drop_statement const& n) { f(n); go(n.name()); }
    void operator()(ma::statement::truncate_table_statement const& n) { f(n); go(n.name()); }
    void operator()(ma::statement::grant_privilege_statement const& n) { f(n); go(n.actions()); go(n.objects()); go(n.users()); }
    void operator()(ma::statement::revoke_privilege_statement const& n) { f(n); go(n.actions()); go(n.objects()); go(n.users()); }
    void operator()(ma::statement::column_definition const& n) { f(n); go(n.name()); go(n.type()); go(n.constraints()); }
    void operator()(ma::statement::table_constraint_definition const& n) { f(n); go(n.name()); go(n.body()); }
    void operator()(ma::statement::simple_constraint const& n) { f(n); }
    void operator()(ma::statement::expression_constraint const& n) { f(n); go(n.expression()); }
    void operator()(ma::statement::key_constraint const& n) { f(n); go(n.key()); go(n.values()); go(n.parameters()); }
    void operator()(ma::statement::referential_constraint const& n) { f(n); go(n.columns()); go(n.target()); go(n.target_columns()); }
    void operator()(ma::statement::identity_constraint const& n) { f(n); go(n.initial_value()); go(n.increment_value()); go(n.min_value()); go(n.max_value()); }
    void operator()(ma::statement::rename_table_action const& n) { f(n); go(n.replacement()); }
    void operator()(ma::statement::rename_column_action const& n) { f(n); go(n.column_name()); go(n.replacement()); }
    void operator()(ma::statement::rename_index_action const& n) { f(n); go(n.replacement()); }
    void operator()(ma::query::query const& n) { f(n); go(n.elements()); go(n.from()); go(n.where()); go(n.group_by()); go(n.having()); go(n.order_by()); go(n.limit()); }
    void operator()(ma::query::table_reference const& n) { f(n); go(n.name()); }
    void operator()(ma::query::table_value_constructor const& n) { f(n); go(n.elements()); }
    void operator()(ma::query::binary_expression const& n) { f(n); go(n.left()); go(n.corresponding()); go(n.right()); }
    void operator()(ma::query::with_expression const& n) { f(n); go(n.elements()); go(n.expression()); }
    void operator()(ma::query::select_column const& n) { f(n); go(n.value()); go(n.name()); }
    void operator()(ma::query::select_asterisk const& n) { f(n); go(n.qualifier()); }
    void operator()(ma::query::grouping_column const& n) { f(n); go(n.column()); go(n.collation()); }
    void operator()(ma::table::table_reference const& n) { f(n); go(n.name()); go(n.correlation()); }
    void operator()(ma::table::unnest const& n) { f(n); go(n.expression()); go(n.correlation()); }
    void operator()(ma::table::join const& n) { f(n); go(n.left()); go(n.right()); go(n.specification()); }
    void operator()(ma::table::subquery const& n) { f(n); go(n.expression()); go(n.correlation()); }
    void operator()(ma::table::apply const& n) { f(n); go(n.operand()); go(n.name()); go(n.arguments()); go(n.correlation()); }
    void operator()(ma::table::join_condition const& n) { f(n); go(n.expression()); }
    void operator()(ma::table::join_columns const& n) { f(n); go(n.columns()); }
    void operator()(ma::scalar::literal_expression const& n) { f(n); go(n.value()); }
    void operator()(ma::scalar::variable_reference const& n) { f(n); go(n.name()); }
    void operator()(ma::scalar::host_parameter_reference const& n) { f(n); go(n.name()); }
    void operator()(ma::scalar::field_reference const& n) { f(n); go(n.value()); go(n.name()); }
    void operator()(ma::scalar::case_expression const& n) { f(n); go(n.operand()); go(n.when_clauses()); go(n.default_result()); }
    void operator()(ma::scalar::cast_expression const& n) { f(n); go(n.operand()); go(n.type()); }
    void operator()(ma::scalar::unary_expression const& n) { f(n); go(n.operand()); }
    void operator()(ma::scalar::binary_expression const& n) { f(n); go(n.left()); go(n.right()); }
    void operator()(ma::scalar::extract_expression const& n) { f(n); go(n.operand()); }
    void operator()(ma::scalar::trim_expression const& n) { f(n); go(n.character()); go(n.source()); }
    void operator()(ma::scalar::value_constructor const& n) { f(n); go(n.elements()); }
    void operator()(ma::scalar::subquery const& n) { f(n); go(n.query()); }
    void operator()(ma::scalar::comparison_predicate const& n) { f(n); go(n.left()); go(n.right()); }
    void operator()(ma::scalar::quantified_comparison_predicate const& n) { f(n); go(n.left()); go(n.right()); }
    void operator()(ma::scalar::between_predicate const& n) { f(n); go(n.target()); go(n.left()); go(n.right()); }
    void operator()(ma::scalar::in_predicate const& n) { f(n); go(n.left()); go(n.right()); }
    void operator()(ma::scalar::pattern_match_predicate const& n) { f(n); go(n.match_value()); go(n.pattern()); go(n.escape()); }
    void operator()(ma::scalar::table_predicate const& n) { f(n); go(n.operand()); }
    void operator()(ma::scalar::function_invocation const& n) { f(n); go(n.name()); go(n.arguments()); }
    void operator()(ma::scalar::builtin_function_invocation const& n) { f(n); go(n.arguments()); }
    void operator()(ma::scalar::builtin_set_function_invocation const& n) { f(n); go(n.arguments()); }
    void operator()(ma::scalar::new_invocation const& n) { f(n); go(n.type()); go(n.arguments()); }
    void operator()(ma::scalar::method_invocation const& n) { f(n); go(n.value()); go(n.name()); go(n.arguments()); }
    void operator()(ma::scalar::static_method_invocation const& n) { f(n); go(n.type()); go(n.name()); go(n.arguments()); }
    void operator()(ma::scalar::current_of_cursor const& n) { f(n); go(n.name()); }
    void operator()(ma::scalar::placeholder_reference const& n) { f(n); }
    void operator()(ma::literal::boolean const& n) { f(n); }
    void operator()(ma::literal::numeric const& n) { f(n); }
    void operator()(ma::literal::string const& n) { f(n); }
    void operator()(ma::literal::datetime const& n) { f(n); }
    void operator()(ma::literal::interval const& n) { f(n); }
    void operator()(ma::literal::null const& n) { f(n); }
    void operator()(ma::literal::empty const& n) { f(n); }
    void operator()(ma::literal::default_ const& n) { f(n); }
    void operator()(ma::type::simple const& n) { f(n); }
    void operator()(ma::type::character_string const& n) { f(n); }
    void operator()(ma::type::bit_string const& n) { f(n); }
    void operator()(ma::type::octet_string const& n) { f(n); }
    void operator()(ma::type::decimal const& n) { f(n); }
    void operator()(ma::type::binary_numeric const& n) { f(n); }
    void operator()(ma::type::datetime const& n) { f(n); }
    void operator()(ma::type::interval const& n) { f(n); }
    void operator()(ma::type::row const& n) { f(n); go(n.elements()); }
    void operator()(ma::type::user_defined const& n) { f(n); go(n.name()); }
    void operator()(ma::type::collection const& n) { f(n); go(n.element()); }
    void operator()(ma::name::simple const& n) { f(n); }
    void operator()(ma::name::qualified const& n) { f(n); go(n.qualifier()); go(n.last()); }
};
template<class F, class N> void walk(N const& n, F& f) { walker<F> { f }.go(n); }
}
