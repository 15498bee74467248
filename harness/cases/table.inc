CASE("SELECT * FROM a1 b1 (c1, d1)",
    "query{elements:[asterisk{}] from:[table_reference{name:a1 correlation:{correlation_name:b1 column_names:[c1 d1]}}]}")
CASE("SELECT * FROM a1 AS b1 (c1)",
    "query{elements:[asterisk{}] from:[table_reference{name:a1 correlation:{correlation_name:b1 column_names:[c1]}}]}")
CASE("SELECT * FROM LATERAL (TABLE a1) b1",
    "query{elements:[asterisk{}] from:[subquery{is_lateral:yes expression:@a1 correlation:{correlation_name:b1}}]}")
CASE("SELECT * FROM LATERAL (TABLE a1) AS b1 (c1, d1)",
    "query{elements:[asterisk{}] from:[subquery{is_lateral:yes expression:@a1 correlation:{correlation_name:b1 column_names:[c1 d1]}}]}")
CASE("SELECT * FROM UNNEST (a1) b1",
    "query{elements:[asterisk{}] from:[unnest{expression:$a1 correlation:{correlation_name:b1}}]}")
CASE("SELECT * FROM UNNEST (a1 . b1) WITH ORDINALITY AS c1 (d1, e1)",
    "query{elements:[asterisk{}] from:[unnest{expression:$qualified{last:b1 qualifier:a1} with_ordinality:yes correlation:{correlation_name:c1 column_names:[d1 e1]}}]}")
CASE("SELECT * FROM ONLY (a1)",
    "query{elements:[asterisk{}] from:[table_reference{is_only:yes name:a1}]}")
CASE("SELECT * FROM ONLY (a1 . b1) AS c1 (d1)",
    "query{elements:[asterisk{}] from:[table_reference{is_only:yes name:qualified{last:b1 qualifier:a1} correlation:{correlation_name:c1 column_names:[d1]}}]}")
CASE("SELECT * FROM a1 CROSS JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:cross right:@b1}]}")
CASE("SELECT * FROM a1 JOIN b1 ON c1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:inner right:@b1 specification:condition{expression:$c1}}]}")
CASE("SELECT * FROM a1 INNER JOIN b1 ON c1 = d1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:inner right:@b1 specification:condition{expression:comparison_predicate{left:$c1 operator_kind:equals right:$d1}}}]}")
CASE("SELECT * FROM a1 LEFT JOIN b1 ON c1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:left_outer right:@b1 specification:condition{expression:$c1}}]}")
CASE("SELECT * FROM a1 LEFT OUTER JOIN b1 USING (c1, d1)",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:left_outer right:@b1 specification:columns{columns:[c1 d1]}}]}")
CASE("SELECT * FROM a1 RIGHT JOIN b1 ON c1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:right_outer right:@b1 specification:condition{expression:$c1}}]}")
CASE("SELECT * FROM a1 RIGHT OUTER JOIN b1 ON c1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:right_outer right:@b1 specification:condition{expression:$c1}}]}")
CASE("SELECT * FROM a1 FULL JOIN b1 USING (c1)",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:full_outer right:@b1 specification:columns{columns:[c1]}}]}")
CASE("SELECT * FROM a1 FULL OUTER JOIN b1 ON c1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:full_outer right:@b1 specification:condition{expression:$c1}}]}")
CASE("SELECT * FROM a1 NATURAL JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:natural_inner right:@b1}]}")
CASE("SELECT * FROM a1 NATURAL INNER JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:natural_inner right:@b1}]}")
CASE("SELECT * FROM a1 NATURAL LEFT JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:natural_left_outer right:@b1}]}")
CASE("SELECT * FROM a1 NATURAL LEFT OUTER JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:natural_left_outer right:@b1}]}")
CASE("SELECT * FROM a1 NATURAL RIGHT JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:natural_right_outer right:@b1}]}")
CASE("SELECT * FROM a1 NATURAL RIGHT OUTER JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:natural_right_outer right:@b1}]}")
CASE("SELECT * FROM a1 NATURAL FULL JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:natural_full_outer right:@b1}]}")
CASE("SELECT * FROM a1 NATURAL FULL OUTER JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:natural_full_outer right:@b1}]}")
CASE("SELECT * FROM a1 UNION JOIN b1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:union right:@b1}]}")
CASE("SELECT * FROM a1 APPLY b1() c1",
    "query{elements:[asterisk{}] from:[apply{operand:@a1 name:b1 correlation:{correlation_name:c1}}]}")
CASE("SELECT * FROM a1 CROSS APPLY b1(c1, 1) d1",
    "query{elements:[asterisk{}] from:[apply{operand:@a1 operator_kind:cross name:b1 arguments:[$c1 #1] correlation:{correlation_name:d1}}]}")
CASE("SELECT * FROM a1 OUTER APPLY b1 . c1(d1 AS INT) AS e1 (f1, g1)",
    "query{elements:[asterisk{}] from:[apply{operand:@a1 operator_kind:outer name:qualified{last:c1 qualifier:b1} arguments:[cast_expression{operator_kind:generalize operand:$d1 type:integer{}}] correlation:{correlation_name:e1 column_names:[f1 g1]}}]}")
CASE("SELECT * FROM a1 JOIN b1 ON c1 JOIN d1 ON e1",
    "query{elements:[asterisk{}] from:[join{left:join{left:@a1 operator_kind:inner right:@b1 specification:condition{expression:$c1}} operator_kind:inner right:@d1 specification:condition{expression:$e1}}]}")
CASE("SELECT * FROM a1 JOIN b1 JOIN c1 ON d1 ON e1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:inner right:join{left:@b1 operator_kind:inner right:@c1 specification:condition{expression:$d1}} specification:condition{expression:$e1}}]}")
CASE("SELECT * FROM a1 JOIN (b1 JOIN c1 ON d1) ON e1",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:inner right:join{left:@b1 operator_kind:inner right:@c1 specification:condition{expression:$d1}} specification:condition{expression:$e1}}]}")
CASE("SELECT * FROM a1 CROSS JOIN b1 CROSS JOIN c1",
    "query{elements:[asterisk{}] from:[join{left:join{left:@a1 operator_kind:cross right:@b1} operator_kind:cross right:@c1}]}")
CASE("SELECT * FROM a1 CROSS JOIN (b1 CROSS JOIN c1)",
    "query{elements:[asterisk{}] from:[join{left:@a1 operator_kind:cross right:join{left:@b1 operator_kind:cross right:@c1}}]}")
CASE("SELECT * FROM a1 LEFT JOIN b1 USING (c1) CROSS JOIN d1 APPLY e1(f1) g1",
    "query{elements:[asterisk{}] from:[apply{operand:join{left:join{left:@a1 operator_kind:left_outer right:@b1 specification:columns{columns:[c1]}} operator_kind:cross right:@d1} name:e1 arguments:[$f1] correlation:{correlation_name:g1}}]}")
CASE("SELECT * FROM (a1 CROSS JOIN b1) NATURAL JOIN c1, d1 UNION JOIN e1",
    "query{elements:[asterisk{}] from:[join{left:join{left:@a1 operator_kind:cross right:@b1} operator_kind:natural_inner right:@c1} join{left:@d1 operator_kind:union right:@e1}]}")
CASE("SELECT * FROM a1 b1 JOIN c1 AS d1 ON e1 JOIN (TABLE f1) g1 USING (h1)",
    "query{elements:[asterisk{}] from:[join{left:join{left:table_reference{name:a1 correlation:{correlation_name:b1}} operator_kind:inner right:table_reference{name:c1 correlation:{correlation_name:d1}} specification:condition{expression:$e1}} operator_kind:inner right:subquery{expression:@f1 correlation:{correlation_name:g1}} specification:columns{columns:[h1]}}]}")
