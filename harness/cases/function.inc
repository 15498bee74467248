CASE("VALUES (a1(), b1(1), c1(d1, 'x', NULL), e1(f1(g1())))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[function_invocation{name:a1} function_invocation{name:b1 arguments:[#1]} function_invocation{name:c1 arguments:[$d1 'x' null{}]} function_invocation{name:e1 arguments:[function_invocation{name:f1 arguments:[function_invocation{name:g1}]}]}]}]}")
CASE("VALUES (a1(b1 AS INT), a1(b1 AS c1, d1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[function_invocation{name:a1 arguments:[cast_expression{operator_kind:generalize operand:$b1 type:integer{}}]} function_invocation{name:a1 arguments:[cast_expression{operator_kind:generalize operand:$b1 type:user_defined{name:c1}} $d1]}]}]}")
CASE("VALUES (ABS(a1), CEIL(a1), FLOOR(a1), MOD(a1, b1), UPPER(a1), LOWER(a1), LENGTH(a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_function_invocation{function:abs arguments:[$a1]} builtin_function_invocation{function:ceil arguments:[$a1]} builtin_function_invocation{function:floor arguments:[$a1]} builtin_function_invocation{function:mod arguments:[$a1 $b1]} builtin_function_invocation{function:upper arguments:[$a1]} builtin_function_invocation{function:lower arguments:[$a1]} builtin_function_invocation{function:length arguments:[$a1]}]}]}")
CASE("VALUES (CHAR_LENGTH(a1), CHARACTER_LENGTH(a1), OCTET_LENGTH(a1), CARDINALITY(a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_function_invocation{function:character_length arguments:[$a1]} builtin_function_invocation{function:character_length arguments:[$a1]} builtin_function_invocation{function:octet_length arguments:[$a1]} builtin_function_invocation{function:cardinality arguments:[$a1]}]}]}")
CASE("VALUES (POSITION(a1 IN b1), SUBSTRING(a1 FROM b1), SUBSTRING(a1 FROM b1 FOR c1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_function_invocation{function:position arguments:[$a1 $b1]} builtin_function_invocation{function:substring arguments:[$a1 $b1]} builtin_function_invocation{function:substring arguments:[$a1 $b1 $c1]}]}]}")
CASE("VALUES (CONVERT(a1 USING b1), TRANSLATE(a1 USING b1 . c1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_function_invocation{function:convert arguments:[$a1 $b1]} builtin_function_invocation{function:translate arguments:[$a1 $qualified{last:c1 qualifier:b1}]}]}]}")
CASE("VALUES (TRIM(a1), TRIM(FROM a1), TRIM(a1 FROM b1), TRIM(LEADING FROM a1), TRIM(TRAILING a1 FROM b1), TRIM(BOTH a1 FROM b1), TRIM(BOTH FROM a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[trim_expression{source:$a1} trim_expression{source:$a1} trim_expression{character:$a1 source:$b1} trim_expression{specification:leading source:$a1} trim_expression{character:$a1 specification:trailing source:$b1} trim_expression{character:$a1 specification:both source:$b1} trim_expression{specification:both source:$a1}]}]}")
CASE("VALUES (OVERLAY(a1 PLACING b1 FROM c1), OVERLAY(a1 PLACING b1 FROM c1 FOR d1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_function_invocation{function:overlay arguments:[$a1 $b1 $c1]} builtin_function_invocation{function:overlay arguments:[$a1 $b1 $c1 $d1]}]}]}")
CASE("VALUES (CURRENT_DATE, CURRENT_TIME, LOCALTIME, CURRENT_TIMESTAMP, LOCALTIMESTAMP)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_function_invocation{function:current_date} builtin_function_invocation{function:current_time} builtin_function_invocation{function:localtime} builtin_function_invocation{function:current_timestamp} builtin_function_invocation{function:localtimestamp}]}]}")
CASE("VALUES (CURRENT_TIME(a1), LOCALTIME(1), CURRENT_TIMESTAMP(b1), LOCALTIMESTAMP(c1 + 1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_function_invocation{function:current_time arguments:[$a1]} builtin_function_invocation{function:localtime arguments:[#1]} builtin_function_invocation{function:current_timestamp arguments:[$b1]} builtin_function_invocation{function:localtimestamp arguments:[binary_expression{left:$c1 operator_kind:plus right:#1}]}]}]}")
CASE("VALUES (EXTRACT(YEAR FROM a1), EXTRACT(MONTH FROM a1), EXTRACT(DAY FROM a1), EXTRACT(HOUR FROM a1), EXTRACT(MINUTE FROM a1), EXTRACT(SECOND FROM a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[extract_expression{field:year operand:$a1} extract_expression{field:month operand:$a1} extract_expression{field:day operand:$a1} extract_expression{field:hour operand:$a1} extract_expression{field:minute operand:$a1} extract_expression{field:second operand:$a1}]}]}")
CASE("VALUES (EXTRACT(TIMEZONE_HOUR FROM a1), EXTRACT(TIMEZONE_MINUTE FROM a1), EXTRACT(DATE FROM a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[extract_expression{field:timezone_hour operand:$a1} extract_expression{field:timezone_minute operand:$a1} extract_expression{field:date operand:$a1}]}]}")
CASE("VALUES (EXTRACT(YEAR TO MONTH FROM a1), EXTRACT(YEAR TO DAY FROM a1), EXTRACT(YEAR TO HOUR FROM a1), EXTRACT(YEAR TO MINUTE FROM a1), EXTRACT(YEAR TO SECOND FROM a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[extract_expression{field:year to month operand:$a1} extract_expression{field:year to day operand:$a1} extract_expression{field:year to hour operand:$a1} extract_expression{field:year to minute operand:$a1} extract_expression{field:year to second operand:$a1}]}]}")
CASE("VALUES (EXTRACT(SECOND(3) FROM a1), EXTRACT(SECOND(*) FROM a1), EXTRACT(YEAR TO SECOND(6) FROM a1), EXTRACT(YEAR TO SECOND(*) FROM a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[extract_expression{field:second subsecond_digits:3 operand:$a1} extract_expression{field:second subsecond_digits:* operand:$a1} extract_expression{field:year to second subsecond_digits:6 operand:$a1} extract_expression{field:year to second subsecond_digits:* operand:$a1}]}]}")
CASE("VALUES (COUNT(*), COUNT(a1), COUNT(ALL a1), COUNT(DISTINCT a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_set_function_invocation{function:count} builtin_set_function_invocation{function:count arguments:[$a1]} builtin_set_function_invocation{function:count quantifier:all arguments:[$a1]} builtin_set_function_invocation{function:count quantifier:distinct arguments:[$a1]}]}]}")
CASE("VALUES (AVG(a1), MAX(a1), MIN(DISTINCT a1), SUM(ALL a1), EVERY(a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_set_function_invocation{function:avg arguments:[$a1]} builtin_set_function_invocation{function:max arguments:[$a1]} builtin_set_function_invocation{function:min quantifier:distinct arguments:[$a1]} builtin_set_function_invocation{function:sum quantifier:all arguments:[$a1]} builtin_set_function_invocation{function:every arguments:[$a1]}]}]}")
CASE("VALUES (BIT_AND(a1), BIT_OR(a1), BOOL_AND(a1), BOOL_OR(DISTINCT a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_set_function_invocation{function:bit_and arguments:[$a1]} builtin_set_function_invocation{function:bit_or arguments:[$a1]} builtin_set_function_invocation{function:bool_and arguments:[$a1]} builtin_set_function_invocation{function:bool_or quantifier:distinct arguments:[$a1]}]}]}")
CASE("VALUES (NULLIF(a1, b1), COALESCE(a1), COALESCE(a1, b1, 1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_function_invocation{function:nullif arguments:[$a1 $b1]} builtin_function_invocation{function:coalesce arguments:[$a1]} builtin_function_invocation{function:coalesce arguments:[$a1 $b1 #1]}]}]}")
CASE("VALUES (CASE WHEN a1 THEN b1 END, CASE WHEN a1 THEN b1 WHEN c1 = 1 THEN d1 ELSE e1 END)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[case_expression{when_clauses:[{when:$a1 result:$b1}]} case_expression{when_clauses:[{when:$a1 result:$b1} {when:comparison_predicate{left:$c1 operator_kind:equals right:#1} result:$d1}] default_result:$e1}]}]}")
CASE("VALUES (CASE a1 WHEN b1 THEN c1 END, CASE a1 WHEN 1 THEN b1 WHEN 2 THEN c1 ELSE d1 END)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[case_expression{operand:$a1 when_clauses:[{when:$b1 result:$c1}]} case_expression{operand:$a1 when_clauses:[{when:#1 result:$b1} {when:#2 result:$c1}] default_result:$d1}]}]}")
CASE("VALUES (CAST(a1 AS INT), CAST(NULL AS CHAR), TREAT(a1 AS b1), (a1 AS b1), (a1 + 1 AS INT))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$a1 type:integer{}} cast_expression{operator_kind:cast operand:null{} type:character{}} cast_expression{operator_kind:treat operand:$a1 type:user_defined{name:b1}} cast_expression{operator_kind:generalize operand:$a1 type:user_defined{name:b1}} cast_expression{operator_kind:generalize operand:binary_expression{left:$a1 operator_kind:plus right:#1} type:integer{}}]}]}")
CASE("VALUES (NEW a1(), NEW a1 . b1(c1, 1), NEW a1(b1 AS INT))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[new_invocation{type:user_defined{name:a1}} new_invocation{type:user_defined{name:qualified{last:b1 qualifier:a1}} arguments:[$c1 #1]} new_invocation{type:user_defined{name:a1} arguments:[cast_expression{operator_kind:generalize operand:$b1 type:integer{}}]}]}]}")
CASE("VALUES (a1 . b1, a1 -> b1, a1 . b1 -> c1, (a1) . b1, f(a1) . b1 . c1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[$qualified{last:b1 qualifier:a1} field_reference{value:$a1 operator_kind:arrow name:b1} field_reference{value:$qualified{last:b1 qualifier:a1} operator_kind:arrow name:c1} $qualified{last:b1 qualifier:a1} field_reference{value:field_reference{value:function_invocation{name:f arguments:[$a1]} operator_kind:period name:b1} operator_kind:period name:c1}]}]}")
CASE("VALUES (a1 . b1(c1), a1 -> b1(), a1 :: b1(c1, 1), a1 . b1 . c1(1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[function_invocation{name:qualified{last:b1 qualifier:a1} arguments:[$c1]} method_invocation{value:$a1 operator_kind:arrow name:b1} static_method_invocation{type:user_defined{name:a1} name:b1 arguments:[$c1 #1]} function_invocation{name:qualified{last:c1 qualifier:qualified{last:b1 qualifier:a1}} arguments:[#1]}]}]}")
CASE("VALUES (a1[1], a1[b1][c1], a1 . b1[2], ARRAY[a1][1], a1[b1 + 1])",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[binary_expression{left:$a1 operator_kind:element_reference right:#1} binary_expression{left:binary_expression{left:$a1 operator_kind:element_reference right:$b1} operator_kind:element_reference right:$c1} binary_expression{left:$qualified{last:b1 qualifier:a1} operator_kind:element_reference right:#2} binary_expression{left:value_constructor{operator_kind:array elements:[$a1]} operator_kind:element_reference right:#1} binary_expression{left:$a1 operator_kind:element_reference right:binary_expression{left:$b1 operator_kind:plus right:#1}}]}]}")
CASE("VALUES (DEREF(a1), DEREF(a1 -> b1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[unary_expression{operator_kind:reference_resolution operand:$a1} unary_expression{operator_kind:reference_resolution operand:field_reference{value:$a1 operator_kind:arrow name:b1}}]}]}")
CASE("VALUES (:a1, :a1 + :b1, ?, ? * ?)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[host_parameter_reference{name::a1} binary_expression{left:host_parameter_reference{name::a1} operator_kind:plus right:host_parameter_reference{name::b1}} placeholder_reference{index:1} binary_expression{left:placeholder_reference{index:2} operator_kind:asterisk right:placeholder_reference{index:3}}]}]}")
CASE("VALUES (NEXT VALUE FOR a1, NEXT VALUE FOR a1 . b1, NEXT VALUE FOR a1 . b1 . c1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[builtin_function_invocation{function:next_value_for arguments:[$a1]} builtin_function_invocation{function:next_value_for arguments:[$qualified{last:b1 qualifier:a1}]} builtin_function_invocation{function:next_value_for arguments:[$qualified{last:c1 qualifier:qualified{last:b1 qualifier:a1}}]}]}]}")
