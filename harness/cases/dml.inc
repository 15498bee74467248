CASE("INSERT INTO a1 VALUES (1)",
    "insert_statement{table_name:a1 expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]}}")
CASE("INSERT INTO a1 . b1 VALUES (1, c1), (2, DEFAULT)",
    "insert_statement{table_name:qualified{last:b1 qualifier:a1} expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1 $c1]} value_constructor{operator_kind:row elements:[#2 default{}]}]}}")
CASE("INSERT INTO a1 (b1) VALUES (1)",
    "insert_statement{table_name:a1 columns:[b1] expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]}}")
CASE("INSERT INTO a1 (b1, c1) VALUES (1, 2)",
    "insert_statement{table_name:a1 columns:[b1 c1] expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1 #2]}]}}")
CASE("INSERT INTO a1 DEFAULT VALUES",
    "insert_statement{table_name:a1}")
CASE("INSERT INTO a1 (b1) DEFAULT VALUES",
    "insert_statement{table_name:a1 columns:[b1]}")
CASE("INSERT INTO a1 SELECT b1 FROM c1",
    "insert_statement{table_name:a1 expression:query{elements:[column{value:$b1}] from:[@c1]}}")
CASE("INSERT INTO a1 (b1, c1) TABLE d1",
    "insert_statement{table_name:a1 columns:[b1 c1] expression:@d1}")
CASE("INSERT INTO a1 WITH b1 AS (TABLE c1) TABLE b1",
    "insert_statement{table_name:a1 expression:with_expression{elements:[{name:b1 expression:@c1}] expression:@b1}}")
CASE("INSERT OR REPLACE INTO a1 (b1) VALUES (?)",
    "insert_statement{table_name:a1 columns:[b1] expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[placeholder_reference{index:1}]}]} options:[or_replace]}")
CASE("INSERT OR IGNORE INTO a1 VALUES (:b1)",
    "insert_statement{table_name:a1 expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[host_parameter_reference{name::b1}]}]} options:[or_ignore]}")
CASE("INSERT IF NOT EXISTS INTO a1 VALUES (1)",
    "insert_statement{table_name:a1 expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]} options:[or_ignore]}")
CASE("UPDATE OR INSERT INTO a1 VALUES (1)",
    "insert_statement{table_name:a1 expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]} options:[or_replace]}")
CASE("UPDATE a1 SET b1 = 1",
    "update_statement{table_name:a1 elements:[{target:b1 value:#1}]}")
CASE("UPDATE a1 . b1 SET c1 = d1, e1 . f1 = DEFAULT",
    "update_statement{table_name:qualified{last:b1 qualifier:a1} elements:[{target:c1 value:$d1} {target:qualified{last:f1 qualifier:e1} value:default{}}]}")
CASE("UPDATE a1 b1 SET c1 = 1 WHERE d1 = 2",
    "update_statement{table_name:a1 alias_name:b1 elements:[{target:c1 value:#1}] where:comparison_predicate{left:$d1 operator_kind:equals right:#2}}")
CASE("UPDATE a1 AS b1 SET c1 = NULL WHERE d1 AND e1 OR f1",
    "update_statement{table_name:a1 alias_name:b1 elements:[{target:c1 value:null{}}] where:binary_expression{left:binary_expression{left:$d1 operator_kind:and right:$e1} operator_kind:or right:$f1}}")
CASE("UPDATE a1 SET b1 = (SELECT c1 FROM d1) WHERE CURRENT OF e1",
    "update_statement{table_name:a1 elements:[{target:b1 value:subquery{query:query{elements:[column{value:$c1}] from:[@d1]} context_kind:scalar}}] where:current_of_cursor{name:e1}}")
CASE("DELETE FROM a1",
    "delete_statement{table_name:a1}")
CASE("DELETE FROM a1 . b1 WHERE c1",
    "delete_statement{table_name:qualified{last:b1 qualifier:a1} where:$c1}")
CASE("DELETE FROM a1 b1 WHERE c1 = ?",
    "delete_statement{table_name:a1 alias_name:b1 where:comparison_predicate{left:$c1 operator_kind:equals right:placeholder_reference{index:1}}}")
CASE("DELETE FROM a1 AS b1 WHERE CURRENT OF c1",
    "delete_statement{table_name:a1 alias_name:b1 where:current_of_cursor{name:c1}}")
CASE("TRUNCATE TABLE a1",
    "truncate_table_statement{name:a1}")
CASE("TRUNCATE TABLE a1 . b1 RESTART IDENTITY",
    "truncate_table_statement{name:qualified{last:b1 qualifier:a1} identity_column_option:restart_identity}")
CASE("TRUNCATE TABLE a1 CONTINUE IDENTITY",
    "truncate_table_statement{name:a1 identity_column_option:continue_identity}")
CASE("GRANT ALL PRIVILEGES ON a1 TO b1",
    "grant_privilege_statement{actions:[{action_kind:all_privileges}] objects:[{object_name:a1}] users:[{user_kind:identifier authorization_identifier:b1}]}")
CASE("GRANT SELECT ON TABLE a1 TO PUBLIC",
    "grant_privilege_statement{actions:[{action_kind:select}] objects:[{object_kind:table object_name:a1}] users:[{user_kind:public}]}")
CASE("GRANT SELECT, INSERT, UPDATE, DELETE ON a1 . b1, TABLE c1 TO d1, PUBLIC, CURRENT_USER, *",
    "grant_privilege_statement{actions:[{action_kind:select} {action_kind:insert} {action_kind:update} {action_kind:delete}] objects:[{object_name:qualified{last:b1 qualifier:a1}} {object_kind:table object_name:c1}] users:[{user_kind:identifier authorization_identifier:d1} {user_kind:public} {user_kind:current_user} {user_kind:all_users}]}")
CASE("REVOKE ALL PRIVILEGES ON TABLE a1 FROM *",
    "revoke_privilege_statement{actions:[{action_kind:all_privileges}] objects:[{object_kind:table object_name:a1}] users:[{user_kind:all_users}]}")
CASE("REVOKE INSERT, DELETE ON a1, TABLE b1 . c1 FROM d1, CURRENT_USER",
    "revoke_privilege_statement{actions:[{action_kind:insert} {action_kind:delete}] objects:[{object_name:a1} {object_kind:table object_name:qualified{last:c1 qualifier:b1}}] users:[{user_kind:identifier authorization_identifier:d1} {user_kind:current_user}]}")
