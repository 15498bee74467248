ENUM(mz::analyzer, sql_analyzer_code)
  NAME(unknown, "unknown")
  NAME(unsupported_feature, "unsupported_feature")
  NAME(malformed_syntax, "malformed_syntax")
  NAME(missing_context_of_default_value, "missing_context_of_default_value")
  NAME(missing_context_of_null, "missing_context_of_null")
  NAME(unsupported_decimal_value, "unsupported_decimal_value")
  NAME(malformed_approximate_number, "malformed_approximate_number")
  NAME(unsupported_approximate_number, "unsupported_approximate_number")
  NAME(malformed_quoted_string, "malformed_quoted_string")
  NAME(unsupported_string_value, "unsupported_string_value")
  NAME(flexible_length_is_not_supported, "flexible_length_is_not_supported")
  NAME(invalid_type_length, "invalid_type_length")
  NAME(invalid_numeric_scale, "invalid_numeric_scale")
  NAME(catalog_not_found, "catalog_not_found")
  NAME(schema_not_found, "schema_not_found")
  NAME(table_not_found, "table_not_found")
  NAME(index_not_found, "index_not_found")
  NAME(view_not_found, "view_not_found")
  NAME(sequence_not_found, "sequence_not_found")
  NAME(column_not_found, "column_not_found")
  NAME(variable_not_found, "variable_not_found")
  NAME(function_not_found, "function_not_found")
  NAME(symbol_not_found, "symbol_not_found")
  NAME(schema_already_exists, "schema_already_exists")
  NAME(table_already_exists, "table_already_exists")
  NAME(index_already_exists, "index_already_exists")
  NAME(view_already_exists, "view_already_exists")
  NAME(sequence_already_exists, "sequence_already_exists")
  NAME(column_already_exists, "column_already_exists")
  NAME(variable_already_exists, "variable_already_exists")
  NAME(function_already_exists, "function_already_exists")
  NAME(symbol_already_exists, "symbol_already_exists")
  NAME(primary_index_not_found, "primary_index_not_found")
  NAME(primary_index_already_exists, "primary_index_already_exists")
  NAME(invalid_constraint, "invalid_constraint")
  NAME(invalid_sequence_value, "invalid_sequence_value")
  NAME(relation_ambiguous, "relation_ambiguous")
  NAME(variable_ambiguous, "variable_ambiguous")
  NAME(column_ambiguous, "column_ambiguous")
  NAME(function_ambiguous, "function_ambiguous")
  NAME(invalid_unsigned_integer, "invalid_unsigned_integer")
  NAME(inconsistent_table, "inconsistent_table")
  NAME(inconsistent_columns, "inconsistent_columns")
  NAME(invalid_aggregation_column, "invalid_aggregation_column")
  NAME(ambiguous_type, "ambiguous_type")
  NAME(inconsistent_type, "inconsistent_type")
  NAME(unresolved_variable, "unresolved_variable")
  NAME(inconsistent_elements, "inconsistent_elements")
  NAME(inconsistent_function_type, "inconsistent_function_type")
END
ENUM(mz::analyzer, sql_analyzer_result_kind)
  NAME(diagnostics, "diagnostics")
  NAME(execution_plan, "execution_plan")
  NAME(statement, "statement")
END
ENUM(mz::ast::common, null_ordering_specification)
  NAME(first, "first")
  NAME(last, "last")
END
ENUM(mz::ast::common, ordering_specification)
  NAME(asc, "asc")
  NAME(desc, "desc")
END
ENUM(mz::ast::literal, boolean_kind)
  NAME(true_, "TRUE")
  NAME(false_, "FALSE")
  NAME(unknown, "UNKNOWN")
END
ENUM(mz::ast::literal, kind)
  NAME(boolean, "boolean")
  NAME(exact_numeric, "exact_numeric")
  NAME(approximate_numeric, "approximate_numeric")
  NAME(character_string, "character_string")
  NAME(bit_string, "bit_string")
  NAME(hex_string, "hex_string")
  NAME(date, "date")
  NAME(time, "time")
  NAME(time_with_time_zone, "time_with_time_zone")
  NAME(timestamp, "timestamp")
  NAME(timestamp_with_time_zone, "timestamp_with_time_zone")
  NAME(interval, "interval")
  NAME(null, "null")
  NAME(empty, "empty")
  NAME(default_, "default")
END
ENUM(mz::ast::literal, sign)
  NAME(plus, "plus")
  NAME(minus, "minus")
END
ENUM(mz::ast::name, identifier_kind)
  NAME(regular, "regular")
  NAME(delimited, "delimited")
END
ENUM(mz::ast::name, kind)
  NAME(simple, "simple")
  NAME(qualified, "qualified")
END
ENUM(mz::ast::query, binary_operator)
  NAME(union_, "union")
  NAME(outer_union, "outer_union")
  NAME(except, "except")
  NAME(intersect, "intersect")
END
ENUM(mz::ast::query, grouping_element_kind)
  NAME(column, "column")
END
ENUM(mz::ast::query, kind)
  NAME(query, "query")
  NAME(table_reference, "table_reference")
  NAME(table_value_constructor, "table_value_constructor")
  NAME(binary_expression, "binary_expression")
  NAME(with_expression, "with_expression")
END
ENUM(mz::ast::query, select_element_kind)
  NAME(column, "column")
  NAME(asterisk, "asterisk")
END
ENUM(mz::ast::scalar, between_operator)
  NAME(asymmetric, "asymmetric")
  NAME(symmetric, "symmetric")
END
ENUM(mz::ast::scalar, binary_operator)
  NAME(plus, "plus")
  NAME(minus, "minus")
  NAME(asterisk, "asterisk")
  NAME(solidus, "solidus")
  NAME(percent, "percent")
  NAME(concatenation, "concatenation")
  NAME(element_reference, "element_reference")
  NAME(at_time_zone, "at_time_zone")
  NAME(and_, "and")
  NAME(or_, "or")
  NAME(is, "is")
  NAME(is_not, "is_not")
  NAME(overlaps, "overlaps")
  NAME(is_distinct_from, "is_distinct_from")
  NAME(contains, "contains")
  NAME(is_contained_by, "is_contained_by")
  NAME(have_elements_in_common, "have_elements_in_common")
END
ENUM(mz::ast::scalar, builtin_function_kind)
  NAME(position, "position")
  NAME(length, "length")
  NAME(character_length, "character_length")
  NAME(octet_length, "octet_length")
  NAME(bit_length, "bit_length")
  NAME(cardinality, "cardinality")
  NAME(abs, "abs")
  NAME(ceil, "ceil")
  NAME(floor, "floor")
  NAME(mod, "mod")
  NAME(substring, "substring")
  NAME(upper, "upper")
  NAME(lower, "lower")
  NAME(convert, "convert")
  NAME(translate, "translate")
  NAME(overlay, "overlay")
  NAME(current_date, "current_date")
  NAME(current_time, "current_time")
  NAME(localtime, "localtime")
  NAME(current_timestamp, "current_timestamp")
  NAME(localtimestamp, "localtimestamp")
  NAME(nullif, "nullif")
  NAME(coalesce, "coalesce")
  NAME(next_value_for, "next_value_for")
  NAME(user, "user")
  NAME(current_user, "current_user")
  NAME(current_role, "current_role")
  NAME(system_user, "system_user")
  NAME(current_path, "current_path")
END
ENUM(mz::ast::scalar, builtin_set_function_kind)
  NAME(avg, "avg")
  NAME(max, "max")
  NAME(min, "min")
  NAME(sum, "sum")
  NAME(every, "every")
  NAME(any, "any")
  NAME(some, "some")
  NAME(count, "count")
  NAME(bit_and, "bit_and")
  NAME(bit_or, "bit_or")
  NAME(bool_and, "bool_and")
  NAME(bool_or, "bool_or")
END
ENUM(mz::ast::scalar, cast_operator)
  NAME(cast, "cast")
  NAME(treat, "treat")
  NAME(generalize, "generalize")
END
ENUM(mz::ast::scalar, comparison_operator)
  NAME(equals, "equals")
  NAME(not_equals, "not_equals")
  NAME(not_equals_alternative, "not_equals_alternative")
  NAME(less_than, "less_than")
  NAME(greater_than, "greater_than")
  NAME(less_than_or_equals, "less_than_or_equals")
  NAME(greater_than_or_equals, "greater_than_or_equals")
END
ENUM(mz::ast::scalar, expression_context_kind)
  NAME(scalar, "scalar")
  NAME(row, "row")
END
ENUM(mz::ast::scalar, extract_field_kind)
  NAME(year, "year")
  NAME(month, "month")
  NAME(day, "day")
  NAME(hour, "hour")
  NAME(minute, "minute")
  NAME(second, "second")
  NAME(timezone_hour, "timezone_hour")
  NAME(timezone_minute, "timezone_minute")
  NAME(date, "date")
  NAME(year_to_month, "year to month")
  NAME(year_to_day, "year to day")
  NAME(year_to_hour, "year to hour")
  NAME(year_to_minute, "year to minute")
  NAME(year_to_second, "year to second")
END
ENUM(mz::ast::scalar, kind)
  NAME(literal_expression, "literal_expression")
  NAME(variable_reference, "variable_reference")
  NAME(host_parameter_reference, "host_parameter_reference")
  NAME(field_reference, "field_reference")
  NAME(case_expression, "case_expression")
  NAME(cast_expression, "cast_expression")
  NAME(unary_expression, "unary_expression")
  NAME(binary_expression, "binary_expression")
  NAME(extract_expression, "extract_expression")
  NAME(trim_expression, "trim_expression")
  NAME(value_constructor, "value_constructor")
  NAME(subquery, "subquery")
  NAME(comparison_predicate, "comparison_predicate")
  NAME(quantified_comparison_predicate, "quantified_comparison_predicate")
  NAME(between_predicate, "between_predicate")
  NAME(in_predicate, "in_predicate")
  NAME(pattern_match_predicate, "pattern_match_predicate")
  NAME(table_predicate, "table_predicate")
  NAME(function_invocation, "function_invocation")
  NAME(builtin_function_invocation, "builtin_function_invocation")
  NAME(builtin_set_function_invocation, "builtin_set_function_invocation")
  NAME(new_invocation, "new_invocation")
  NAME(method_invocation, "method_invocation")
  NAME(static_method_invocation, "static_method_invocation")
  NAME(current_of_cursor, "current_of_cursor")
  NAME(placeholder_reference, "placeholder_reference")
END
ENUM(mz::ast::scalar, pattern_match_operator)
  NAME(like, "like")
  NAME(similar_to, "similar_to")
END
ENUM(mz::ast::scalar, quantifier)
  NAME(all, "all")
  NAME(some, "some")
  NAME(any, "any")
END
ENUM(mz::ast::scalar, reference_operator)
  NAME(period, "period")
  NAME(arrow, "arrow")
END
ENUM(mz::ast::scalar, set_quantifier)
  NAME(distinct, "distinct")
  NAME(all, "all")
END
ENUM(mz::ast::scalar, table_operator)
  NAME(exists, "exists")
  NAME(unique, "unique")
END
ENUM(mz::ast::scalar, trim_specification)
  NAME(leading, "leading")
  NAME(trailing, "trailing")
  NAME(both, "both")
END
ENUM(mz::ast::scalar, unary_operator)
  NAME(plus, "plus")
  NAME(minus, "minus")
  NAME(not_, "not")
  NAME(at_local, "at_local")
  NAME(reference_resolution, "reference_resolution")
END
ENUM(mz::ast::scalar, value_constructor_kind)
  NAME(array, "array")
  NAME(row, "row")
END
ENUM(mz::ast::statement, alter_index_action_kind)
  NAME(rename_index, "rename_index")
END
ENUM(mz::ast::statement, alter_table_action_kind)
  NAME(rename_table, "rename_table")
  NAME(rename_column, "rename_column")
END
ENUM(mz::ast::statement, constraint_kind)
  NAME(check, "check")
  NAME(unique, "unique")
  NAME(primary_key, "primary_key")
  NAME(referential, "referential")
  NAME(null, "null")
  NAME(not_null, "not_null")
  NAME(default_clause, "default_clause")
  NAME(generation_clause, "generation_clause")
  NAME(identity_column, "identity_column")
END
ENUM(mz::ast::statement, drop_statement_option)
  NAME(if_exists, "if_exists")
  NAME(restrict, "restrict")
  NAME(cascade, "cascade")
END
ENUM(mz::ast::statement, identity_column_restart_option)
  NAME(continue_identity, "continue_identity")
  NAME(restart_identity, "restart_identity")
END
ENUM(mz::ast::statement, identity_generation_type)
  NAME(always, "always")
  NAME(by_default, "by_default")
END
ENUM(mz::ast::statement, index_definition_option)
  NAME(unique, "unique")
  NAME(if_not_exists, "if_not_exists")
END
ENUM(mz::ast::statement, insert_statement_option)
  NAME(or_replace, "or_replace")
  NAME(or_ignore, "or_ignore")
END
ENUM(mz::ast::statement, kind)
  NAME(select_statement, "select_statement")
  NAME(insert_statement, "insert_statement")
  NAME(update_statement, "update_statement")
  NAME(delete_statement, "delete_statement")
  NAME(table_definition, "table_definition")
  NAME(index_definition, "index_definition")
  NAME(view_definition, "view_definition")
  NAME(sequence_definition, "sequence_definition")
  NAME(schema_definition, "schema_definition")
  NAME(alter_table_statement, "alter_table_statement")
  NAME(alter_index_statement, "alter_index_statement")
  NAME(drop_table_statement, "drop_table_statement")
  NAME(drop_index_statement, "drop_index_statement")
  NAME(drop_view_statement, "drop_view_statement")
  NAME(drop_sequence_statement, "drop_sequence_statement")
  NAME(drop_schema_statement, "drop_schema_statement")
  NAME(truncate_table_statement, "truncate_table_statement")
  NAME(grant_privilege_statement, "grant_privilege_statement")
  NAME(revoke_privilege_statement, "revoke_privilege_statement")
  NAME(empty_statement, "empty_statement")
END
ENUM(mz::ast::statement, privilege_action_kind)
  NAME(all_privileges, "all_privileges")
  NAME(select, "select")
  NAME(insert, "insert")
  NAME(update, "update")
  NAME(delete_, "delete")
END
ENUM(mz::ast::statement, privilege_object_kind)
  NAME(table, "table")
  NAME(schema, "schema")
END
ENUM(mz::ast::statement, privilege_user_kind)
  NAME(identifier, "identifier")
  NAME(all_users, "all_users")
  NAME(current_user, "current_user")
  NAME(public_, "public")
END
ENUM(mz::ast::statement, referential_action)
  NAME(cascade, "cascade")
  NAME(set_null, "set_null")
  NAME(set_default, "set_default")
  NAME(restrict, "restrict")
  NAME(no_action, "no_action")
END
ENUM(mz::ast::statement, schema_definition_option)
  NAME(if_not_exists, "if_not_exists")
END
ENUM(mz::ast::statement, sequence_definition_option)
  NAME(cycle, "cycle")
  NAME(no_cycle, "no_cycle")
  NAME(temporary, "temporary")
  NAME(if_not_exists, "if_not_exists")
END
ENUM(mz::ast::statement, table_definition_option)
  NAME(temporary, "temporary")
  NAME(if_not_exists, "if_not_exists")
END
ENUM(mz::ast::statement, table_element_kind)
  NAME(column_definition, "column_definition")
  NAME(constraint_definition, "constraint_definition")
END
ENUM(mz::ast::statement, view_definition_option)
  NAME(or_replace, "or_replace")
  NAME(temporary, "temporary")
  NAME(recursive, "recursive")
  NAME(if_not_exists, "if_not_exists")
END
ENUM(mz::ast::table, apply_type)
  NAME(cross, "cross")
  NAME(outer, "outer")
END
ENUM(mz::ast::table, join_specification_kind)
  NAME(condition, "condition")
  NAME(columns, "columns")
END
ENUM(mz::ast::table, join_type)
  NAME(cross, "cross")
  NAME(inner, "inner")
  NAME(left_outer, "left_outer")
  NAME(right_outer, "right_outer")
  NAME(full_outer, "full_outer")
  NAME(natural_inner, "natural_inner")
  NAME(natural_left_outer, "natural_left_outer")
  NAME(natural_right_outer, "natural_right_outer")
  NAME(natural_full_outer, "natural_full_outer")
  NAME(union_, "union")
END
ENUM(mz::ast::table, kind)
  NAME(table_reference, "table_reference")
  NAME(unnest, "unnest")
  NAME(join, "join")
  NAME(subquery, "subquery")
  NAME(apply, "apply")
END
ENUM(mz::ast::type, kind)
  NAME(unknown, "unknown")
  NAME(character, "character")
  NAME(character_varying, "character_varying")
  NAME(character_large_object, "character_large_object")
  NAME(bit, "bit")
  NAME(bit_varying, "bit_varying")
  NAME(octet, "octet")
  NAME(octet_varying, "octet_varying")
  NAME(binary_large_object, "binary_large_object")
  NAME(numeric, "numeric")
  NAME(decimal, "decimal")
  NAME(tiny_integer, "tiny_integer")
  NAME(small_integer, "small_integer")
  NAME(integer, "integer")
  NAME(big_integer, "big_integer")
  NAME(float_, "float")
  NAME(real, "real")
  NAME(double_precision, "double_precision")
  NAME(binary_integer, "binary_integer")
  NAME(binary_float, "binary_float")
  NAME(boolean, "boolean")
  NAME(date, "date")
  NAME(time, "time")
  NAME(timestamp, "timestamp")
  NAME(interval, "interval")
  NAME(row, "row")
  NAME(user_defined, "user_defined")
  NAME(collection, "collection")
END
ENUM(mz::parser, sql_parser_code)
  NAME(unknown, "unknown")
  NAME(system, "system")
  NAME(syntax_error, "syntax_error")
  NAME(unsupported_feature, "unsupported_feature")
  NAME(invalid_character, "invalid_character")
  NAME(invalid_token, "invalid_token")
  NAME(unexpected_token, "unexpected_token")
  NAME(unexpected_eof, "unexpected_eof")
  NAME(exceed_number_of_elements, "exceed_number_of_elements")
END
ENUM(mz::parser, sql_parser_element_kind)
  NAME(statement, "statement")
  NAME(schema_element_definition, "schema_element_definition")
  NAME(table_element_definition, "table_element_definition")
  NAME(column_constraint_definition, "column_constraint_definition")
  NAME(column_reference, "column_reference")
  NAME(storage_parameter, "storage_parameter")
  NAME(set_clause, "set_clause")
  NAME(with_element, "with_element")
  NAME(select_element, "select_element")
  NAME(table_reference, "table_reference")
  NAME(grouping_element, "grouping_element")
  NAME(ordering_element, "ordering_element")
  NAME(field_definition, "field_definition")
  NAME(row_expression, "row_expression")
  NAME(scalar_expression, "scalar_expression")
  NAME(when_clause, "when_clause")
  NAME(string_literal_concatenation, "string_literal_concatenation")
  NAME(privilege_action, "privilege_action")
  NAME(privilege_object, "privilege_object")
  NAME(privilege_user, "privilege_user")
END
ENUM(mz::analyzer::details, value_context_kind)
  NAME(unspecified, "unspecified")
  NAME(scalar, "scalar")
  NAME(row, "row")
END
