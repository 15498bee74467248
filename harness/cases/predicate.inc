CASE("VALUES (a1 = b1, a1 <> b1, a1 != b1, a1 < b1, a1 > b1, a1 <= b1, a1 >= b1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[comparison_predicate{left:$a1 operator_kind:equals right:$b1} comparison_predicate{left:$a1 operator_kind:not_equals right:$b1} comparison_predicate{left:$a1 operator_kind:not_equals_alternative right:$b1} comparison_predicate{left:$a1 operator_kind:less_than right:$b1} comparison_predicate{left:$a1 operator_kind:greater_than right:$b1} comparison_predicate{left:$a1 operator_kind:less_than_or_equals right:$b1} comparison_predicate{left:$a1 operator_kind:greater_than_or_equals right:$b1}]}]}")
CASE("VALUES (a1 <@ b1, a1 @> b1, a1 && b1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[binary_expression{left:$a1 operator_kind:contains right:$b1} binary_expression{left:$a1 operator_kind:is_contained_by right:$b1} binary_expression{left:$a1 operator_kind:have_elements_in_common right:$b1}]}]}")
CASE("VALUES (a1 = ALL (TABLE b1), a1 < SOME (SELECT b1), a1 >= ANY (VALUES (1)))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[quantified_comparison_predicate{left:$a1 operator_kind:equals quantifier:all right:@b1} quantified_comparison_predicate{left:$a1 operator_kind:less_than quantifier:some right:query{elements:[column{value:$b1}]}} quantified_comparison_predicate{left:$a1 operator_kind:greater_than_or_equals quantifier:any right:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]}}]}]}")
CASE("VALUES (a1 BETWEEN b1 AND c1, a1 NOT BETWEEN SYMMETRIC b1 AND c1, a1 BETWEEN ASYMMETRIC b1 AND c1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[between_predicate{target:$a1 left:$b1 right:$c1} between_predicate{target:$a1 left:$b1 is_not:yes operator_kind:symmetric right:$c1} between_predicate{target:$a1 left:$b1 operator_kind:asymmetric right:$c1}]}]}")
CASE("VALUES (a1 IN (b1), a1 NOT IN (b1, c1), a1 IN (SELECT b1), a1 NOT IN (TABLE b1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[in_predicate{left:$a1 right:table_value_constructor{elements:[$b1]}} in_predicate{left:$a1 is_not:yes right:table_value_constructor{elements:[$b1 $c1]}} in_predicate{left:$a1 right:query{elements:[column{value:$b1}]}} in_predicate{left:$a1 is_not:yes right:@b1}]}]}")
CASE("VALUES (a1 LIKE b1, a1 NOT LIKE b1 ESCAPE c1, a1 SIMILAR TO b1, a1 NOT SIMILAR TO b1 ESCAPE 'x')",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[pattern_match_predicate{match_value:$a1 operator_kind:like pattern:$b1} pattern_match_predicate{match_value:$a1 is_not:yes operator_kind:like pattern:$b1 escape:$c1} pattern_match_predicate{match_value:$a1 operator_kind:similar_to pattern:$b1} pattern_match_predicate{match_value:$a1 is_not:yes operator_kind:similar_to pattern:$b1 escape:'x'}]}]}")
CASE("VALUES (EXISTS (TABLE a1), UNIQUE (SELECT a1), a1 OVERLAPS b1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[table_predicate{operator_kind:exists operand:@a1} table_predicate{operator_kind:unique operand:query{elements:[column{value:$a1}]}} binary_expression{left:$a1 operator_kind:overlaps right:$b1}]}]}")
CASE("VALUES (a1 IS NULL, a1 IS NOT NULL, a1 IS TRUE, a1 IS NOT UNKNOWN, a1 = b1 IS FALSE)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[binary_expression{left:$a1 operator_kind:is right:null{}} binary_expression{left:$a1 operator_kind:is_not right:null{}} binary_expression{left:$a1 operator_kind:is right:boolean{value:TRUE}} binary_expression{left:$a1 operator_kind:is_not right:boolean{value:UNKNOWN}} binary_expression{left:comparison_predicate{left:$a1 operator_kind:equals right:$b1} operator_kind:is right:boolean{value:FALSE}}]}]}")
CASE("VALUES (NOT a1, a1 AND b1, a1 OR b1 AND NOT c1, NOT (a1 OR b1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[unary_expression{operator_kind:not operand:$a1} binary_expression{left:$a1 operator_kind:and right:$b1} binary_expression{left:$a1 operator_kind:or right:binary_expression{left:$b1 operator_kind:and right:unary_expression{operator_kind:not operand:$c1}}} unary_expression{operator_kind:not operand:binary_expression{left:$a1 operator_kind:or right:$b1}}]}]}")
CASE("VALUES (a1 + b1 * c1, a1 - b1 / c1 % d1, a1 || b1 || c1, -a1, + a1, -(a1 + b1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[binary_expression{left:$a1 operator_kind:plus right:binary_expression{left:$b1 operator_kind:asterisk right:$c1}} binary_expression{left:$a1 operator_kind:minus right:binary_expression{left:binary_expression{left:$b1 operator_kind:solidus right:$c1} operator_kind:percent right:$d1}} binary_expression{left:binary_expression{left:$a1 operator_kind:concatenation right:$b1} operator_kind:concatenation right:$c1} unary_expression{operator_kind:minus operand:$a1} unary_expression{operator_kind:plus operand:$a1} unary_expression{operator_kind:minus operand:binary_expression{left:$a1 operator_kind:plus right:$b1}}]}]}")
CASE("VALUES (a1 AT LOCAL, a1 AT TIME ZONE b1, a1 AT TIME ZONE - '^c', a1 AT TIME ZONE +1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[unary_expression{operator_kind:at_local operand:$a1} binary_expression{left:$a1 operator_kind:at_time_zone right:$b1} binary_expression{left:$a1 operator_kind:at_time_zone right:unary_expression{operator_kind:minus operand:'^c'}} binary_expression{left:$a1 operator_kind:at_time_zone right:#+1}]}]}")
CASE("VALUES (ROW(a1, b1) = ROW(c1, d1), (a1, b1) < (c1, d1), ROW(a1) IN (TABLE b1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[comparison_predicate{left:value_constructor{operator_kind:row elements:[$a1 $b1]} operator_kind:equals right:value_constructor{operator_kind:row elements:[$c1 $d1]}} comparison_predicate{left:value_constructor{operator_kind:row elements:[$a1 $b1]} operator_kind:less_than right:value_constructor{operator_kind:row elements:[$c1 $d1]}} in_predicate{left:value_constructor{operator_kind:row elements:[$a1]} right:@b1}]}]}")
