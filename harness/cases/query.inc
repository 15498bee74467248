CASE("SELECT a1",
    "query{elements:[column{value:$a1}]}")
CASE("SELECT *",
    "query{elements:[asterisk{}]}")
CASE("SELECT a1.*",
    "query{elements:[asterisk{qualifier:$a1}]}")
CASE("SELECT a1.b1.c1 . *",
    "query{elements:[asterisk{qualifier:$qualified{last:c1 qualifier:qualified{last:b1 qualifier:a1}}}]}")
CASE("SELECT a1, b1, *",
    "query{elements:[column{value:$a1} column{value:$b1} asterisk{}]}")
CASE("SELECT a1 AS b1",
    "query{elements:[column{value:$a1 name:b1}]}")
CASE("SELECT a1 b1, c1 AS d1",
    "query{elements:[column{value:$a1 name:b1} column{value:$c1 name:d1}]}")
CASE("SELECT a1 . b1 AS c1",
    "query{elements:[column{value:$qualified{last:b1 qualifier:a1} name:c1}]}")
CASE("SELECT a1 . b1 . c1 . d1",
    "query{elements:[column{value:$qualified{last:d1 qualifier:qualified{last:c1 qualifier:qualified{last:b1 qualifier:a1}}}}]}")
CASE("SELECT \"a\"\"^q\" AS \"^r b\"",
    "query{elements:[column{value:$\"a\"^q\" name:\"^r b\"}]}")
CASE("SELECT ALL a1",
    "query{quantifier:all elements:[column{value:$a1}]}")
CASE("SELECT DISTINCT a1, b1",
    "query{quantifier:distinct elements:[column{value:$a1} column{value:$b1}]}")
CASE("SELECT * FROM a1",
    "query{elements:[asterisk{}] from:[@a1]}")
CASE("SELECT * FROM a1, b1 c1, d1 . e1 AS f1",
    "query{elements:[asterisk{}] from:[@a1 table_reference{name:b1 correlation:{correlation_name:c1}} table_reference{name:qualified{last:e1 qualifier:d1} correlation:{correlation_name:f1}}]}")
CASE("SELECT a1 FROM b1 WHERE c1",
    "query{elements:[column{value:$a1}] from:[@b1] where:$c1}")
CASE("SELECT a1 FROM b1 WHERE c1 = d1 AND e1",
    "query{elements:[column{value:$a1}] from:[@b1] where:binary_expression{left:comparison_predicate{left:$c1 operator_kind:equals right:$d1} operator_kind:and right:$e1}}")
CASE("SELECT a1 FROM b1 GROUP BY ()",
    "query{elements:[column{value:$a1}] from:[@b1] group_by:{}}")
CASE("SELECT a1 FROM b1 GROUP BY c1",
    "query{elements:[column{value:$a1}] from:[@b1] group_by:{elements:[column{column:$c1}]}}")
CASE("SELECT a1 FROM b1 GROUP BY c1, d1 + e1 COLLATE f1, g1 COLLATE h1 . i1",
    "query{elements:[column{value:$a1}] from:[@b1] group_by:{elements:[column{column:$c1} column{column:binary_expression{left:$d1 operator_kind:plus right:$e1} collation:f1} column{column:$g1 collation:qualified{last:i1 qualifier:h1}}]}}")
CASE("SELECT a1 FROM b1 HAVING c1",
    "query{elements:[column{value:$a1}] from:[@b1] having:$c1}")
CASE("SELECT a1 FROM b1 GROUP BY c1 HAVING d1 > e1",
    "query{elements:[column{value:$a1}] from:[@b1] group_by:{elements:[column{column:$c1}]} having:comparison_predicate{left:$d1 operator_kind:greater_than right:$e1}}")
CASE("SELECT a1 FROM b1 ORDER BY c1",
    "query{elements:[column{value:$a1}] from:[@b1] order_by:[{key:$c1}]}")
CASE("SELECT a1 FROM b1 ORDER BY c1 ASC, d1 DESC, e1",
    "query{elements:[column{value:$a1}] from:[@b1] order_by:[{key:$c1 direction:asc} {key:$d1 direction:desc} {key:$e1}]}")
CASE("SELECT a1 FROM b1 ORDER BY c1 NULLS FIRST, d1 ASC NULLS LAST, e1 DESC NULLS FIRST",
    "query{elements:[column{value:$a1}] from:[@b1] order_by:[{key:$c1 null_location:first} {key:$d1 direction:asc null_location:last} {key:$e1 direction:desc null_location:first}]}")
CASE("SELECT a1 FROM b1 ORDER BY c1 COLLATE d1 DESC NULLS LAST",
    "query{elements:[column{value:$a1}] from:[@b1] order_by:[{key:$c1 collation:d1 direction:desc null_location:last}]}")
CASE("SELECT a1 FROM b1 LIMIT 10",
    "query{elements:[column{value:$a1}] from:[@b1] limit:#10}")
CASE("SELECT a1 FROM b1 LIMIT :c1",
    "query{elements:[column{value:$a1}] from:[@b1] limit:host_parameter_reference{name::c1}}")
CASE("SELECT a1 FROM b1 LIMIT ?",
    "query{elements:[column{value:$a1}] from:[@b1] limit:placeholder_reference{index:1}}")
CASE("SELECT DISTINCT a1, b1 c1 FROM d1 e1, f1 WHERE g1 = 1 GROUP BY h1, i1 HAVING j1 < 2 ORDER BY k1 DESC, l1 LIMIT 3",
    "query{quantifier:distinct elements:[column{value:$a1} column{value:$b1 name:c1}] from:[table_reference{name:d1 correlation:{correlation_name:e1}} @f1] where:comparison_predicate{left:$g1 operator_kind:equals right:#1} group_by:{elements:[column{column:$h1} column{column:$i1}]} having:comparison_predicate{left:$j1 operator_kind:less_than right:#2} order_by:[{key:$k1 direction:desc} {key:$l1}] limit:#3}")
CASE("TABLE a1",
    "@a1")
CASE("TABLE a1 . b1 . c1",
    "@qualified{last:c1 qualifier:qualified{last:b1 qualifier:a1}}")
CASE("VALUES (1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]}")
CASE("VALUES (a1, b1), (c1, d1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[$a1 $b1]} value_constructor{operator_kind:row elements:[$c1 $d1]}]}")
CASE("VALUES ROW(a1, b1), (SELECT c1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[$a1 $b1]} subquery{query:query{elements:[column{value:$c1}]} context_kind:row}]}")
CASE("VALUES (NULL, TRUE, 'a', DEFAULT)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[null{} boolean{value:TRUE} 'a' default{}]}]}")
CASE("VALUES ((a1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[$a1]}]}")
CASE("VALUES (a1, (b1, c1))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[$a1 value_constructor{operator_kind:row elements:[$b1 $c1]}]}]}")
CASE("TABLE a1 UNION TABLE b1",
    "binary_expression{left:@a1 operator_kind:union right:@b1}")
CASE("TABLE a1 UNION ALL TABLE b1",
    "binary_expression{left:@a1 operator_kind:union quantifier:all right:@b1}")
CASE("TABLE a1 UNION DISTINCT TABLE b1",
    "binary_expression{left:@a1 operator_kind:union quantifier:distinct right:@b1}")
CASE("TABLE a1 OUTER UNION TABLE b1",
    "binary_expression{left:@a1 operator_kind:outer_union right:@b1}")
CASE("TABLE a1 EXCEPT ALL TABLE b1",
    "binary_expression{left:@a1 operator_kind:except quantifier:all right:@b1}")
CASE("TABLE a1 INTERSECT DISTINCT TABLE b1",
    "binary_expression{left:@a1 operator_kind:intersect quantifier:distinct right:@b1}")
CASE("TABLE a1 UNION CORRESPONDING TABLE b1",
    "binary_expression{left:@a1 operator_kind:union right:@b1 corresponding:{}}")
CASE("TABLE a1 UNION ALL CORRESPONDING BY (c1, d1) TABLE b1",
    "binary_expression{left:@a1 operator_kind:union quantifier:all right:@b1 corresponding:{column_names:[c1 d1]}}")
CASE("TABLE a1 UNION (TABLE b1 EXCEPT TABLE c1)",
    "binary_expression{left:@a1 operator_kind:union right:binary_expression{left:@b1 operator_kind:except right:@c1}}")
CASE("(TABLE a1 UNION TABLE b1) INTERSECT TABLE c1",
    "binary_expression{left:binary_expression{left:@a1 operator_kind:union right:@b1} operator_kind:intersect right:@c1}")
CASE("SELECT a1 FROM b1 WHERE c1 ORDER BY d1 LIMIT 1 UNION SELECT e1",
    "binary_expression{left:query{elements:[column{value:$a1}] from:[@b1] where:$c1 order_by:[{key:$d1}] limit:#1} operator_kind:union right:query{elements:[column{value:$e1}]}}")
CASE("WITH a1 AS (TABLE b1) TABLE a1",
    "with_expression{elements:[{name:a1 expression:@b1}] expression:@a1}")
CASE("WITH RECURSIVE a1 (b1, c1) AS (TABLE d1 UNION ALL TABLE a1), e1 AS (VALUES (1)) SELECT * FROM a1, e1",
    "with_expression{is_recursive:yes elements:[{name:a1 expression:binary_expression{left:@d1 operator_kind:union quantifier:all right:@a1} column_names:[b1 c1]} {name:e1 expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]}}] expression:query{elements:[asterisk{}] from:[@a1 @e1]}}")
CASE("WITH a1 AS (WITH b1 AS (TABLE c1) TABLE b1) TABLE a1 UNION TABLE d1",
    "with_expression{elements:[{name:a1 expression:with_expression{elements:[{name:b1 expression:@c1}] expression:@b1}}] expression:binary_expression{left:@a1 operator_kind:union right:@d1}}")
CASE("SELECT (SELECT a1), (SELECT b1 FROM c1 WHERE d1) e1",
    "query{elements:[column{value:subquery{query:query{elements:[column{value:$a1}]} context_kind:scalar}} column{value:subquery{query:query{elements:[column{value:$b1}] from:[@c1] where:$d1} context_kind:scalar} name:e1}]}")
CASE("SELECT a1 FROM (SELECT b1 FROM c1) d1",
    "query{elements:[column{value:$a1}] from:[subquery{expression:query{elements:[column{value:$b1}] from:[@c1]} correlation:{correlation_name:d1}}]}")
CASE("SELECT a1 FROM (TABLE c1 UNION TABLE d1) AS e1 (f1, g1)",
    "query{elements:[column{value:$a1}] from:[subquery{expression:binary_expression{left:@c1 operator_kind:union right:@d1} correlation:{correlation_name:e1 column_names:[f1 g1]}}]}")
CASE("SELECT a1 FROM b1 WHERE EXISTS (SELECT * FROM c1) OR d1 IN (SELECT e1 FROM f1)",
    "query{elements:[column{value:$a1}] from:[@b1] where:binary_expression{left:table_predicate{operator_kind:exists operand:query{elements:[asterisk{}] from:[@c1]}} operator_kind:or right:in_predicate{left:$d1 right:query{elements:[column{value:$e1}] from:[@f1]}}}}")
CASE("SELECT NEXT VALUE FOR a1",
    "query{elements:[column{value:builtin_function_invocation{function:next_value_for arguments:[$a1]}}]}")
