CASE("CREATE TABLE a1 (b1 INT)",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{}}]}")
CASE("CREATE TABLE a1 ()",
    "table_definition{name:a1}")
CASE("CREATE TEMPORARY TABLE IF NOT EXISTS a1 . b1 (c1 INT, d1 VARCHAR(*))",
    "table_definition{name:qualified{last:b1 qualifier:a1} elements:[column_definition{name:c1 type:integer{}} column_definition{name:d1 type:character_varying{length:*}}] options:[if_not_exists temporary]}")
CASE("CREATE TABLE a1 (b1 INT NULL, c1 INT NOT NULL, d1 INT DEFAULT 1, e1 INT CHECK (f1), g1 INT UNIQUE, h1 INT PRIMARY KEY)",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:null{}}]} column_definition{name:c1 type:integer{} constraints:[{body:not_null{}}]} column_definition{name:d1 type:integer{} constraints:[{body:default_clause{expression:#1}}]} column_definition{name:e1 type:integer{} constraints:[{body:check{expression:$f1}}]} column_definition{name:g1 type:integer{} constraints:[{body:unique{constraint_kind:unique}}]} column_definition{name:h1 type:integer{} constraints:[{body:primary_key{constraint_kind:primary_key}}]}]}")
CASE("CREATE TABLE a1 (b1 INT CONSTRAINT c1 NOT NULL CONSTRAINT d1 . e1 DEFAULT f1 + 1 PRIMARY KEY)",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{name:c1 body:not_null{}} {name:qualified{last:e1 qualifier:d1} body:default_clause{expression:binary_expression{left:$f1 operator_kind:plus right:#1}}} {body:primary_key{constraint_kind:primary_key}}]}]}")
CASE("CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS (c1 + 1))",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:generation_clause{expression:binary_expression{left:$c1 operator_kind:plus right:#1}}}]}]}")
CASE("CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY, c1 INT GENERATED BY DEFAULT AS IDENTITY)",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:identity_column{generation:always}}]} column_definition{name:c1 type:integer{} constraints:[{body:identity_column{generation:by_default}}]}]}")
CASE("CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY ())",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:identity_column{generation:always}}]}]}")
CASE("CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY (START WITH 1 INCREMENT BY 2 MINVALUE 3 MAXVALUE 4 CYCLE))",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:identity_column{generation:always initial_value:#1 increment_value:#2 min_value:#3 max_value:#4 cycle:yes}}]}]}")
CASE("CREATE TABLE a1 (b1 INT GENERATED BY DEFAULT AS IDENTITY (START 1 INCREMENT -2 NO MINVALUE NO MAXVALUE NO CYCLE))",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:identity_column{generation:by_default initial_value:#1 increment_value:#-2}}]}]}")
CASE("CREATE TABLE a1 (b1 INT UNIQUE INCLUDE (c1, d1 + 1) WITH (e1, f1 = 1), g1 INT PRIMARY KEY INCLUDE () WITH ())",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:unique{constraint_kind:unique values:[$c1 binary_expression{left:$d1 operator_kind:plus right:#1}] parameters:[{name:e1} {name:f1 value:#1}]}}]} column_definition{name:g1 type:integer{} constraints:[{body:primary_key{constraint_kind:primary_key}}]}]}")
CASE("CREATE TABLE a1 (b1 INT REFERENCES c1)",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:referential{target:c1}}]}]}")
CASE("CREATE TABLE a1 (b1 INT REFERENCES c1 . d1 (e1, f1) ON UPDATE CASCADE)",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:referential{target:qualified{last:d1 qualifier:c1} target_columns:[e1 f1] on_update:cascade}}]}]}")
CASE("CREATE TABLE a1 (b1 INT REFERENCES c1 ON DELETE SET NULL, d1 INT REFERENCES e1 ON UPDATE SET DEFAULT ON DELETE RESTRICT, f1 INT REFERENCES g1 ON DELETE NO ACTION ON UPDATE CASCADE)",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:referential{target:c1 on_delete:set_null}}]} column_definition{name:d1 type:integer{} constraints:[{body:referential{target:e1 on_update:set_default on_delete:restrict}}]} column_definition{name:f1 type:integer{} constraints:[{body:referential{target:g1 on_update:cascade on_delete:no_action}}]}]}")
CASE("CREATE TABLE a1 (b1 INT, PRIMARY KEY (b1))",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{}} constraint_definition{body:primary_key{constraint_kind:primary_key key:[{key:$b1}]}}]}")
CASE("CREATE TABLE a1 (b1 INT, CONSTRAINT c1 PRIMARY KEY (b1 DESC, d1 COLLATE e1 ASC NULLS LAST) INCLUDE (f1) WITH (g1 . h1 = 'x'))",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{}} constraint_definition{name:c1 body:primary_key{constraint_kind:primary_key key:[{key:$b1 direction:desc} {key:$d1 collation:e1 direction:asc null_location:last}] values:[$f1] parameters:[{name:qualified{last:h1 qualifier:g1} value:'x'}]}}]}")
CASE("CREATE TABLE a1 (UNIQUE (b1, c1), CHECK (d1), CONSTRAINT e1 . f1 CHECK (g1))",
    "table_definition{name:a1 elements:[constraint_definition{body:unique{constraint_kind:unique key:[{key:$b1} {key:$c1}]}} constraint_definition{body:check{expression:$d1}} constraint_definition{name:qualified{last:f1 qualifier:e1} body:check{expression:$g1}}]}")
CASE("CREATE TABLE a1 (FOREIGN KEY (b1, c1) REFERENCES d1, CONSTRAINT e1 FOREIGN KEY (f1) REFERENCES g1 (h1) ON DELETE CASCADE ON UPDATE NO ACTION)",
    "table_definition{name:a1 elements:[constraint_definition{body:referential{columns:[b1 c1] target:d1}} constraint_definition{name:e1 body:referential{columns:[f1] target:g1 target_columns:[h1] on_update:no_action on_delete:cascade}}]}")
CASE("CREATE TABLE a1 (b1 INT) WITH (c1, d1 . e1, f1 = 1, g1 = -2)",
    "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{}}] parameters:[{name:c1} {name:qualified{last:e1 qualifier:d1}} {name:f1 value:#1} {name:g1 value:#-2}]}")
CASE("CREATE INDEX ON a1 (b1)",
    "index_definition{table_name:a1 keys:[{key:$b1}]}")
CASE("CREATE INDEX a1 ON b1 (c1)",
    "index_definition{name:a1 table_name:b1 keys:[{key:$c1}]}")
CASE("CREATE UNIQUE INDEX IF NOT EXISTS a1 . b1 ON c1 . d1 (e1 ASC, f1 DESC NULLS FIRST, g1 + 1 COLLATE h1) INCLUDE (i1, j1) WITH (k1 = 1) WHERE l1 = 2",
    "index_definition{name:qualified{last:b1 qualifier:a1} table_name:qualified{last:d1 qualifier:c1} keys:[{key:$e1 direction:asc} {key:$f1 direction:desc null_location:first} {key:binary_expression{left:$g1 operator_kind:plus right:#1} collation:h1}] values:[$i1 $j1] predicate:comparison_predicate{left:$l1 operator_kind:equals right:#2} options:[unique if_not_exists] parameters:[{name:k1 value:#1}]}")
CASE("CREATE UNIQUE INDEX a1 ON b1 (c1) INCLUDE ()",
    "index_definition{name:a1 table_name:b1 keys:[{key:$c1}] options:[unique]}")
CASE("CREATE VIEW a1 AS TABLE b1",
    "view_definition{name:a1 query:@b1}")
CASE("CREATE TEMPORARY RECURSIVE VIEW IF NOT EXISTS a1 . b1 (c1, d1) WITH (e1 = 1) AS SELECT * FROM f1",
    "view_definition{name:qualified{last:b1 qualifier:a1} columns:[c1 d1] query:query{elements:[asterisk{}] from:[@f1]} options:[temporary recursive if_not_exists] parameters:[{name:e1 value:#1}]}")
CASE("CREATE OR REPLACE VIEW a1 AS VALUES (1)",
    "view_definition{name:a1 query:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1]}]} options:[or_replace]}")
CASE("CREATE OR REPLACE TEMPORARY RECURSIVE VIEW IF NOT EXISTS a1 (b1) WITH (c1) AS TABLE d1",
    "view_definition{name:a1 columns:[b1] query:@d1 options:[or_replace temporary recursive if_not_exists] parameters:[{name:c1}]}")
CASE("CREATE SEQUENCE a1",
    "sequence_definition{name:a1}")
CASE("CREATE TEMPORARY SEQUENCE IF NOT EXISTS a1 . b1 AS BIGINT START WITH 1 INCREMENT BY 2 MINVALUE 3 MAXVALUE 4 CYCLE OWNED BY c1 . d1",
    "sequence_definition{name:qualified{last:b1 qualifier:a1} type:big_integer{} initial_value:#1 increment_value:#2 min_value:#3 max_value:#4 owner:qualified{last:d1 qualifier:c1} options:[temporary if_not_exists cycle]}")
CASE("CREATE SEQUENCE a1 START 1 INCREMENT 2 NO MINVALUE NO MAXVALUE NO CYCLE",
    "sequence_definition{name:a1 initial_value:#1 increment_value:#2 options:[no_cycle]}")
CASE("CREATE SEQUENCE a1 NO CYCLE MAXVALUE b1 OWNED BY c1 AS INT",
    "sequence_definition{name:a1 type:integer{} max_value:$b1 owner:c1 options:[no_cycle]}")
CASE("CREATE SCHEMA a1",
    "schema_definition{name:a1}")
CASE("CREATE SCHEMA",
    "schema_definition{}")
CASE("CREATE SCHEMA IF NOT EXISTS a1 . b1 AUTHORIZATION c1",
    "schema_definition{name:qualified{last:b1 qualifier:a1} user_name:c1 options:[if_not_exists]}")
CASE("CREATE SCHEMA AUTHORIZATION CURRENT_ROLE",
    "schema_definition{user_name:current_role}")
CASE("CREATE SCHEMA a1 AUTHORIZATION CURRENT_USER",
    "schema_definition{name:a1 user_name:current_user}")
CASE("CREATE SCHEMA a1 AUTHORIZATION SESSION_USER CREATE TABLE b1 (c1 INT) CREATE INDEX ON b1 (c1) CREATE VIEW d1 AS TABLE b1 CREATE SEQUENCE e1",
    "schema_definition{name:a1 user_name:session_user elements:[table_definition{name:b1 elements:[column_definition{name:c1 type:integer{}}]} index_definition{table_name:b1 keys:[{key:$c1}]} view_definition{name:d1 query:@b1} sequence_definition{name:e1}]}")
CASE("ALTER TABLE a1 RENAME TO b1",
    "alter_table_statement{name:a1 action:rename_table{replacement:b1}}")
CASE("ALTER TABLE IF EXISTS a1 . b1 RENAME TO c1",
    "alter_table_statement{if_exists:yes name:qualified{last:b1 qualifier:a1} action:rename_table{replacement:c1}}")
CASE("ALTER TABLE a1 RENAME COLUMN b1 TO c1",
    "alter_table_statement{name:a1 action:rename_column{column_name:b1 replacement:c1}}")
CASE("ALTER TABLE IF EXISTS a1 RENAME COLUMN IF EXISTS b1 TO c1",
    "alter_table_statement{if_exists:yes name:a1 action:rename_column{if_exists:yes column_name:b1 replacement:c1}}")
CASE("ALTER INDEX a1 RENAME TO b1",
    "alter_index_statement{name:a1 action:rename_index{replacement:b1}}")
CASE("ALTER INDEX IF EXISTS a1 . b1 RENAME TO c1",
    "alter_index_statement{if_exists:yes name:qualified{last:b1 qualifier:a1} action:rename_index{replacement:c1}}")
CASE("DROP TABLE a1",
    "drop_table_statement{name:a1}")
CASE("DROP TABLE IF EXISTS a1 . b1 CASCADE",
    "drop_table_statement{name:qualified{last:b1 qualifier:a1} options:[if_exists cascade]}")
CASE("DROP INDEX a1 RESTRICT",
    "drop_index_statement{name:a1 options:[restrict]}")
CASE("DROP INDEX IF EXISTS a1",
    "drop_index_statement{name:a1 options:[if_exists]}")
CASE("DROP VIEW IF EXISTS a1 RESTRICT",
    "drop_view_statement{name:a1 options:[if_exists restrict]}")
CASE("DROP VIEW a1 CASCADE",
    "drop_view_statement{name:a1 options:[cascade]}")
CASE("DROP SEQUENCE a1",
    "drop_sequence_statement{name:a1}")
CASE("DROP SEQUENCE IF EXISTS a1 CASCADE",
    "drop_sequence_statement{name:a1 options:[if_exists cascade]}")
CASE("DROP SCHEMA a1 . b1",
    "drop_schema_statement{name:qualified{last:b1 qualifier:a1}}")
CASE("DROP SCHEMA IF EXISTS a1 RESTRICT",
    "drop_schema_statement{name:a1 options:[if_exists restrict]}")
