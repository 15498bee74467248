// Accessors of every node and element class, from their headers. Written by tools/gen_parts.py.
template<class F> void parts(ma::common::sort_element const& n, F& f) { auto& m = const_cast<ma::common::sort_element&>(n); f("key", n.key(), m.key()); f("collation", n.collation(), m.collation()); f("direction", n.direction(), m.direction()); f("null_location", n.null_location(), m.null_location()); }
template<class F> void parts(ma::common::target_element const& n, F& f) { auto& m = const_cast<ma::common::target_element&>(n); f("target", n.target(), m.target()); f("indicator", n.indicator(), m.indicator()); }
template<class F> void parts(ma::literal::boolean const& n, F& f) { auto& m = const_cast<ma::literal::boolean&>(n); f("value", n.value()); f("value", m.value()); }
template<class F> void parts(ma::literal::datetime const& n, F& f) { auto& m = const_cast<ma::literal::datetime&>(n); f("value_kind", n.value_kind(), m.value_kind()); f("value", n.value(), m.value()); }
template<class F> void parts(ma::literal::interval const& n, F& f) { auto& m = const_cast<ma::literal::interval&>(n); f("sign", n.sign(), m.sign()); f("value", n.value(), m.value()); }
template<class F> void parts(ma::literal::numeric const& n, F& f) { auto& m = const_cast<ma::literal::numeric&>(n); f("value_kind", n.value_kind(), m.value_kind()); f("sign", n.sign(), m.sign()); f("unsigned_value", n.unsigned_value(), m.unsigned_value()); }
template<class F> void parts(ma::literal::string const& n, F& f) { auto& m = const_cast<ma::literal::string&>(n); f("value_kind", n.value_kind(), m.value_kind()); f("value", n.value(), m.value()); f("concatenations", n.concatenations(), m.concatenations()); }
template<class F> void parts(ma::name::qualified const& n, F& f) { auto& m = const_cast<ma::name::qualified&>(n); f("qualifier", n.qualifier(), m.qualifier()); f("last", n.last(), m.last()); f("optional_qualifier", n.optional_qualifier()); }
template<class F> void parts(ma::name::simple const& n, F& f) { auto& m = const_cast<ma::name::simple&>(n); f("identifier", n.identifier(), m.identifier()); f("identifier_kind", n.identifier_kind(), m.identifier_kind()); f("optional_qualifier", n.optional_qualifier()); }
template<class F> void parts(ma::query::binary_expression const& n, F& f) { auto& m = const_cast<ma::query::binary_expression&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("left", n.left(), m.left()); f("right", n.right(), m.right()); f("quantifier", n.quantifier(), m.quantifier()); f("corresponding", n.corresponding(), m.corresponding()); }
template<class F> void parts(ma::query::corresponding_clause const& n, F& f) { auto& m = const_cast<ma::query::corresponding_clause&>(n); f("column_names", n.column_names(), m.column_names()); }
template<class F> void parts(ma::query::group_by_clause const& n, F& f) { auto& m = const_cast<ma::query::group_by_clause&>(n); f("elements", n.elements(), m.elements()); }
template<class F> void parts(ma::query::grouping_column const& n, F& f) { auto& m = const_cast<ma::query::grouping_column&>(n); f("column", n.column(), m.column()); f("collation", n.collation(), m.collation()); }
template<class F> void parts(ma::query::query const& n, F& f) { auto& m = const_cast<ma::query::query&>(n); f("elements", n.elements(), m.elements()); f("from", n.from(), m.from()); f("where", n.where(), m.where()); f("group_by", n.group_by(), m.group_by()); f("having", n.having(), m.having()); f("order_by", n.order_by(), m.order_by()); f("limit", n.limit(), m.limit()); f("quantifier", n.quantifier(), m.quantifier()); }
template<class F> void parts(ma::query::select_asterisk const& n, F& f) { auto& m = const_cast<ma::query::select_asterisk&>(n); f("qualifier", n.qualifier(), m.qualifier()); }
template<class F> void parts(ma::query::select_column const& n, F& f) { auto& m = const_cast<ma::query::select_column&>(n); f("value", n.value(), m.value()); f("name", n.name(), m.name()); }
template<class F> void parts(ma::query::table_reference const& n, F& f) { auto& m = const_cast<ma::query::table_reference&>(n); f("name", n.name(), m.name()); }
template<class F> void parts(ma::query::table_value_constructor const& n, F& f) { auto& m = const_cast<ma::query::table_value_constructor&>(n); f("elements", n.elements(), m.elements()); }
template<class F> void parts(ma::query::with_element const& n, F& f) { auto& m = const_cast<ma::query::with_element&>(n); f("name", n.name(), m.name()); f("expression", n.expression(), m.expression()); f("column_names", n.column_names(), m.column_names()); }
template<class F> void parts(ma::query::with_expression const& n, F& f) { auto& m = const_cast<ma::query::with_expression&>(n); f("elements", n.elements(), m.elements()); f("expression", n.expression(), m.expression()); f("is_recursive", n.is_recursive(), m.is_recursive()); }
template<class F> void parts(ma::scalar::between_predicate const& n, F& f) { auto& m = const_cast<ma::scalar::between_predicate&>(n); f("target", n.target(), m.target()); f("left", n.left(), m.left()); f("right", n.right(), m.right()); f("operator_kind", n.operator_kind(), m.operator_kind()); f("is_not", n.is_not(), m.is_not()); }
template<class F> void parts(ma::scalar::binary_expression const& n, F& f) { auto& m = const_cast<ma::scalar::binary_expression&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("left", n.left(), m.left()); f("right", n.right(), m.right()); }
template<class F> void parts(ma::scalar::builtin_function_invocation const& n, F& f) { auto& m = const_cast<ma::scalar::builtin_function_invocation&>(n); f("function", n.function(), m.function()); f("arguments", n.arguments(), m.arguments()); }
template<class F> void parts(ma::scalar::builtin_set_function_invocation const& n, F& f) { auto& m = const_cast<ma::scalar::builtin_set_function_invocation&>(n); f("function", n.function(), m.function()); f("quantifier", n.quantifier(), m.quantifier()); f("arguments", n.arguments(), m.arguments()); }
template<class F> void parts(ma::scalar::case_expression const& n, F& f) { auto& m = const_cast<ma::scalar::case_expression&>(n); f("operand", n.operand(), m.operand()); f("when_clauses", n.when_clauses(), m.when_clauses()); f("default_result", n.default_result(), m.default_result()); }
template<class F> void parts(ma::scalar::case_when_clause const& n, F& f) { auto& m = const_cast<ma::scalar::case_when_clause&>(n); f("when", n.when(), m.when()); f("result", n.result(), m.result()); }
template<class F> void parts(ma::scalar::cast_expression const& n, F& f) { auto& m = const_cast<ma::scalar::cast_expression&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("operand", n.operand(), m.operand()); f("type", n.type(), m.type()); }
template<class F> void parts(ma::scalar::comparison_predicate const& n, F& f) { auto& m = const_cast<ma::scalar::comparison_predicate&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("left", n.left(), m.left()); f("right", n.right(), m.right()); }
template<class F> void parts(ma::scalar::current_of_cursor const& n, F& f) { auto& m = const_cast<ma::scalar::current_of_cursor&>(n); f("name", n.name(), m.name()); }
template<class F> void parts(ma::scalar::extract_expression const& n, F& f) { auto& m = const_cast<ma::scalar::extract_expression&>(n); f("field", n.field(), m.field()); f("subsecond_digits", n.subsecond_digits(), m.subsecond_digits()); f("operand", n.operand(), m.operand()); }
template<class F> void parts(ma::scalar::field_reference const& n, F& f) { auto& m = const_cast<ma::scalar::field_reference&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("value", n.value(), m.value()); f("name", n.name(), m.name()); }
template<class F> void parts(ma::scalar::function_invocation const& n, F& f) { auto& m = const_cast<ma::scalar::function_invocation&>(n); f("name", n.name(), m.name()); f("arguments", n.arguments(), m.arguments()); }
template<class F> void parts(ma::scalar::host_parameter_reference const& n, F& f) { auto& m = const_cast<ma::scalar::host_parameter_reference&>(n); f("name", n.name(), m.name()); }
template<class F> void parts(ma::scalar::in_predicate const& n, F& f) { auto& m = const_cast<ma::scalar::in_predicate&>(n); f("left", n.left(), m.left()); f("right", n.right(), m.right()); f("is_not", n.is_not(), m.is_not()); }
template<class F> void parts(ma::scalar::literal_expression const& n, F& f) { auto& m = const_cast<ma::scalar::literal_expression&>(n); f("value", n.value(), m.value()); }
template<class F> void parts(ma::scalar::method_invocation const& n, F& f) { auto& m = const_cast<ma::scalar::method_invocation&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("value", n.value(), m.value()); f("name", n.name(), m.name()); f("arguments", n.arguments(), m.arguments()); }
template<class F> void parts(ma::scalar::new_invocation const& n, F& f) { auto& m = const_cast<ma::scalar::new_invocation&>(n); f("type", n.type(), m.type()); f("arguments", n.arguments(), m.arguments()); }
template<class F> void parts(ma::scalar::pattern_match_predicate const& n, F& f) { auto& m = const_cast<ma::scalar::pattern_match_predicate&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("match_value", n.match_value(), m.match_value()); f("pattern", n.pattern(), m.pattern()); f("escape", n.escape(), m.escape()); f("is_not", n.is_not(), m.is_not()); }
template<class F> void parts(ma::scalar::placeholder_reference const& n, F& f) { auto& m = const_cast<ma::scalar::placeholder_reference&>(n); f("index", n.index(), m.index()); }
template<class F> void parts(ma::scalar::quantified_comparison_predicate const& n, F& f) { auto& m = const_cast<ma::scalar::quantified_comparison_predicate&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("quantifier", n.quantifier(), m.quantifier()); f("left", n.left(), m.left()); f("right", n.right(), m.right()); }
template<class F> void parts(ma::scalar::static_method_invocation const& n, F& f) { auto& m = const_cast<ma::scalar::static_method_invocation&>(n); f("type", n.type(), m.type()); f("name", n.name(), m.name()); f("arguments", n.arguments(), m.arguments()); }
template<class F> void parts(ma::scalar::subquery const& n, F& f) { auto& m = const_cast<ma::scalar::subquery&>(n); f("query", n.query(), m.query()); f("context_kind", n.context_kind(), m.context_kind()); }
template<class F> void parts(ma::scalar::table_predicate const& n, F& f) { auto& m = const_cast<ma::scalar::table_predicate&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("operand", n.operand(), m.operand()); }
template<class F> void parts(ma::scalar::trim_expression const& n, F& f) { auto& m = const_cast<ma::scalar::trim_expression&>(n); f("specification", n.specification(), m.specification()); f("character", n.character(), m.character()); f("source", n.source(), m.source()); }
template<class F> void parts(ma::scalar::unary_expression const& n, F& f) { auto& m = const_cast<ma::scalar::unary_expression&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("operand", n.operand(), m.operand()); }
template<class F> void parts(ma::scalar::value_constructor const& n, F& f) { auto& m = const_cast<ma::scalar::value_constructor&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("elements", n.elements(), m.elements()); }
template<class F> void parts(ma::scalar::variable_reference const& n, F& f) { auto& m = const_cast<ma::scalar::variable_reference&>(n); f("name", n.name(), m.name()); }
template<class F> void parts(ma::statement::alter_index_statement const& n, F& f) { auto& m = const_cast<ma::statement::alter_index_statement&>(n); f("name", n.name(), m.name()); f("action", n.action(), m.action()); f("if_exists", n.if_exists()); f("if_exists", m.if_exists()); }
template<class F> void parts(ma::statement::alter_table_statement const& n, F& f) { auto& m = const_cast<ma::statement::alter_table_statement&>(n); f("name", n.name(), m.name()); f("action", n.action(), m.action()); f("if_exists", n.if_exists()); f("if_exists", m.if_exists()); }
template<class F> void parts(ma::statement::column_constraint_definition const& n, F& f) { auto& m = const_cast<ma::statement::column_constraint_definition&>(n); f("name", n.name(), m.name()); f("body", n.body(), m.body()); }
template<class F> void parts(ma::statement::column_definition const& n, F& f) { auto& m = const_cast<ma::statement::column_definition&>(n); f("name", n.name(), m.name()); f("type", n.type(), m.type()); f("constraints", n.constraints(), m.constraints()); f("description", n.description(), m.description()); }
template<class F> void parts(ma::statement::delete_statement const& n, F& f) { auto& m = const_cast<ma::statement::delete_statement&>(n); f("table_name", n.table_name(), m.table_name()); f("alias_name", n.alias_name(), m.alias_name()); f("where", n.where(), m.where()); }
template<class F> void parts(ma::statement::drop_statement const& n, F& f) { auto& m = const_cast<ma::statement::drop_statement&>(n); f("statement_kind", n.statement_kind(), m.statement_kind()); f("name", n.name(), m.name()); f("options", n.options(), m.options()); }
template<class F> void parts(ma::statement::expression_constraint const& n, F& f) { auto& m = const_cast<ma::statement::expression_constraint&>(n); f("constraint_kind", n.constraint_kind(), m.constraint_kind()); f("expression", n.expression(), m.expression()); }
template<class F> void parts(ma::statement::grant_privilege_statement const& n, F& f) { auto& m = const_cast<ma::statement::grant_privilege_statement&>(n); f("actions", n.actions(), m.actions()); f("objects", n.objects(), m.objects()); f("users", n.users(), m.users()); }
template<class F> void parts(ma::statement::identity_constraint const& n, F& f) { auto& m = const_cast<ma::statement::identity_constraint&>(n); f("generation", n.generation(), m.generation()); f("initial_value", n.initial_value(), m.initial_value()); f("increment_value", n.increment_value(), m.increment_value()); f("min_value", n.min_value(), m.min_value()); f("max_value", n.max_value(), m.max_value()); f("cycle", n.cycle(), m.cycle()); }
template<class F> void parts(ma::statement::index_definition const& n, F& f) { auto& m = const_cast<ma::statement::index_definition&>(n); f("name", n.name(), m.name()); f("table_name", n.table_name(), m.table_name()); f("keys", n.keys(), m.keys()); f("values", n.values(), m.values()); f("predicate", n.predicate(), m.predicate()); f("options", n.options(), m.options()); f("parameters", n.parameters(), m.parameters()); f("description", n.description(), m.description()); }
template<class F> void parts(ma::statement::insert_statement const& n, F& f) { auto& m = const_cast<ma::statement::insert_statement&>(n); f("table_name", n.table_name(), m.table_name()); f("columns", n.columns(), m.columns()); f("expression", n.expression(), m.expression()); f("options", n.options(), m.options()); }
template<class F> void parts(ma::statement::key_constraint const& n, F& f) { auto& m = const_cast<ma::statement::key_constraint&>(n); f("constraint_kind", n.constraint_kind(), m.constraint_kind()); f("key", n.key(), m.key()); f("values", n.values(), m.values()); f("parameters", n.parameters(), m.parameters()); }
template<class F> void parts(ma::statement::privilege_action const& n, F& f) { auto& m = const_cast<ma::statement::privilege_action&>(n); f("action_kind", n.action_kind(), m.action_kind()); }
template<class F> void parts(ma::statement::privilege_object const& n, F& f) { auto& m = const_cast<ma::statement::privilege_object&>(n); f("object_kind", n.object_kind(), m.object_kind()); f("object_name", n.object_name(), m.object_name()); }
template<class F> void parts(ma::statement::privilege_user const& n, F& f) { auto& m = const_cast<ma::statement::privilege_user&>(n); f("user_kind", n.user_kind(), m.user_kind()); f("authorization_identifier", n.authorization_identifier(), m.authorization_identifier()); }
template<class F> void parts(ma::statement::referential_constraint const& n, F& f) { auto& m = const_cast<ma::statement::referential_constraint&>(n); f("columns", n.columns(), m.columns()); f("target", n.target(), m.target()); f("target_columns", n.target_columns(), m.target_columns()); f("on_update", n.on_update(), m.on_update()); f("on_delete", n.on_delete(), m.on_delete()); }
template<class F> void parts(ma::statement::rename_column_action const& n, F& f) { auto& m = const_cast<ma::statement::rename_column_action&>(n); f("column_name", n.column_name(), m.column_name()); f("replacement", n.replacement(), m.replacement()); f("if_exists", n.if_exists()); f("if_exists", m.if_exists()); }
template<class F> void parts(ma::statement::rename_index_action const& n, F& f) { auto& m = const_cast<ma::statement::rename_index_action&>(n); f("replacement", n.replacement(), m.replacement()); }
template<class F> void parts(ma::statement::rename_table_action const& n, F& f) { auto& m = const_cast<ma::statement::rename_table_action&>(n); f("replacement", n.replacement(), m.replacement()); }
template<class F> void parts(ma::statement::revoke_privilege_statement const& n, F& f) { auto& m = const_cast<ma::statement::revoke_privilege_statement&>(n); f("actions", n.actions(), m.actions()); f("objects", n.objects(), m.objects()); f("users", n.users(), m.users()); }
template<class F> void parts(ma::statement::schema_definition const& n, F& f) { auto& m = const_cast<ma::statement::schema_definition&>(n); f("name", n.name(), m.name()); f("user_name", n.user_name(), m.user_name()); f("elements", n.elements(), m.elements()); f("options", n.options(), m.options()); f("description", n.description(), m.description()); }
template<class F> void parts(ma::statement::select_statement const& n, F& f) { auto& m = const_cast<ma::statement::select_statement&>(n); f("expression", n.expression(), m.expression()); f("targets", n.targets(), m.targets()); }
template<class F> void parts(ma::statement::sequence_definition const& n, F& f) { auto& m = const_cast<ma::statement::sequence_definition&>(n); f("name", n.name(), m.name()); f("type", n.type(), m.type()); f("initial_value", n.initial_value(), m.initial_value()); f("increment_value", n.increment_value(), m.increment_value()); f("min_value", n.min_value(), m.min_value()); f("max_value", n.max_value(), m.max_value()); f("options", n.options(), m.options()); f("description", n.description(), m.description()); f("owner", n.owner(), m.owner()); }
template<class F> void parts(ma::statement::set_element const& n, F& f) { auto& m = const_cast<ma::statement::set_element&>(n); f("target", n.target(), m.target()); f("value", n.value(), m.value()); }
template<class F> void parts(ma::statement::simple_constraint const& n, F& f) { auto& m = const_cast<ma::statement::simple_constraint&>(n); f("constraint_kind", n.constraint_kind(), m.constraint_kind()); }
template<class F> void parts(ma::statement::storage_parameter const& n, F& f) { auto& m = const_cast<ma::statement::storage_parameter&>(n); f("name", n.name(), m.name()); f("value", n.value(), m.value()); }
template<class F> void parts(ma::statement::table_constraint_definition const& n, F& f) { auto& m = const_cast<ma::statement::table_constraint_definition&>(n); f("name", n.name(), m.name()); f("body", n.body(), m.body()); }
template<class F> void parts(ma::statement::table_definition const& n, F& f) { auto& m = const_cast<ma::statement::table_definition&>(n); f("name", n.name(), m.name()); f("elements", n.elements(), m.elements()); f("options", n.options(), m.options()); f("parameters", n.parameters(), m.parameters()); f("description", n.description(), m.description()); }
template<class F> void parts(ma::statement::truncate_table_statement const& n, F& f) { auto& m = const_cast<ma::statement::truncate_table_statement&>(n); f("name", n.name(), m.name()); f("identity_column_option", n.identity_column_option(), m.identity_column_option()); }
template<class F> void parts(ma::statement::update_statement const& n, F& f) { auto& m = const_cast<ma::statement::update_statement&>(n); f("table_name", n.table_name(), m.table_name()); f("alias_name", n.alias_name(), m.alias_name()); f("elements", n.elements(), m.elements()); f("where", n.where(), m.where()); }
template<class F> void parts(ma::statement::view_definition const& n, F& f) { auto& m = const_cast<ma::statement::view_definition&>(n); f("name", n.name(), m.name()); f("columns", n.columns(), m.columns()); f("query", n.query(), m.query()); f("options", n.options(), m.options()); f("parameters", n.parameters(), m.parameters()); f("description", n.description(), m.description()); }
template<class F> void parts(ma::table::apply const& n, F& f) { auto& m = const_cast<ma::table::apply&>(n); f("operand", n.operand(), m.operand()); f("operator_kind", n.operator_kind(), m.operator_kind()); f("name", n.name(), m.name()); f("arguments", n.arguments(), m.arguments()); f("correlation", n.correlation(), m.correlation()); }
template<class F> void parts(ma::table::correlation_clause const& n, F& f) { auto& m = const_cast<ma::table::correlation_clause&>(n); f("correlation_name", n.correlation_name(), m.correlation_name()); f("column_names", n.column_names(), m.column_names()); }
template<class F> void parts(ma::table::join const& n, F& f) { auto& m = const_cast<ma::table::join&>(n); f("operator_kind", n.operator_kind(), m.operator_kind()); f("left", n.left(), m.left()); f("right", n.right(), m.right()); f("specification", n.specification(), m.specification()); }
template<class F> void parts(ma::table::join_columns const& n, F& f) { auto& m = const_cast<ma::table::join_columns&>(n); f("columns", n.columns(), m.columns()); }
template<class F> void parts(ma::table::join_condition const& n, F& f) { auto& m = const_cast<ma::table::join_condition&>(n); f("expression", n.expression(), m.expression()); }
template<class F> void parts(ma::table::subquery const& n, F& f) { auto& m = const_cast<ma::table::subquery&>(n); f("expression", n.expression(), m.expression()); f("correlation", n.correlation(), m.correlation()); f("is_lateral", n.is_lateral(), m.is_lateral()); }
template<class F> void parts(ma::table::table_reference const& n, F& f) { auto& m = const_cast<ma::table::table_reference&>(n); f("name", n.name(), m.name()); f("correlation", n.correlation(), m.correlation()); f("is_only", n.is_only(), m.is_only()); }
template<class F> void parts(ma::table::unnest const& n, F& f) { auto& m = const_cast<ma::table::unnest&>(n); f("expression", n.expression(), m.expression()); f("with_ordinality", n.with_ordinality(), m.with_ordinality()); f("correlation", n.correlation(), m.correlation()); }
template<class F> void parts(ma::type::binary_numeric const& n, F& f) { auto& m = const_cast<ma::type::binary_numeric&>(n); f("type_kind", n.type_kind(), m.type_kind()); f("precision", n.precision(), m.precision()); f("is_flexible_precision", n.is_flexible_precision()); }
template<class F> void parts(ma::type::bit_string const& n, F& f) { auto& m = const_cast<ma::type::bit_string&>(n); f("type_kind", n.type_kind(), m.type_kind()); f("length", n.length(), m.length()); f("is_varying", n.is_varying()); f("is_flexible_length", n.is_flexible_length()); }
template<class F> void parts(ma::type::character_string const& n, F& f) { auto& m = const_cast<ma::type::character_string&>(n); f("type_kind", n.type_kind(), m.type_kind()); f("length", n.length(), m.length()); f("is_varying", n.is_varying()); f("is_flexible_length", n.is_flexible_length()); }
template<class F> void parts(ma::type::collection const& n, F& f) { auto& m = const_cast<ma::type::collection&>(n); f("element", n.element(), m.element()); f("length", n.length(), m.length()); f("is_flexible_length", n.is_flexible_length()); }
template<class F> void parts(ma::type::datetime const& n, F& f) { auto& m = const_cast<ma::type::datetime&>(n); f("type_kind", n.type_kind(), m.type_kind()); f("has_time_zone", n.has_time_zone(), m.has_time_zone()); }
template<class F> void parts(ma::type::decimal const& n, F& f) { auto& m = const_cast<ma::type::decimal&>(n); f("type_kind", n.type_kind(), m.type_kind()); f("precision", n.precision(), m.precision()); f("scale", n.scale(), m.scale()); f("is_flexible_precision", n.is_flexible_precision()); f("is_flexible_scale", n.is_flexible_scale()); }
template<class F> void parts(ma::type::field_definition const& n, F& f) { auto& m = const_cast<ma::type::field_definition&>(n); f("name", n.name(), m.name()); f("type", n.type(), m.type()); f("collation", n.collation(), m.collation()); }
template<class F> void parts(ma::type::octet_string const& n, F& f) { auto& m = const_cast<ma::type::octet_string&>(n); f("type_kind", n.type_kind(), m.type_kind()); f("length", n.length(), m.length()); f("is_varying", n.is_varying()); f("is_flexible_length", n.is_flexible_length()); }
template<class F> void parts(ma::type::row const& n, F& f) { auto& m = const_cast<ma::type::row&>(n); f("elements", n.elements(), m.elements()); }
template<class F> void parts(ma::type::user_defined const& n, F& f) { auto& m = const_cast<ma::type::user_defined&>(n); f("name", n.name(), m.name()); }
