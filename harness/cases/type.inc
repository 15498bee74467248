CASE("VALUES (CAST(x AS CHAR), CAST(x AS CHARACTER), CAST(x AS CHAR(10)), CAST(x AS CHARACTER (20)))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:character{}} cast_expression{operator_kind:cast operand:$x type:character{}} cast_expression{operator_kind:cast operand:$x type:character{length:10}} cast_expression{operator_kind:cast operand:$x type:character{length:20}}]}]}")
CASE("VALUES (CAST(x AS VARCHAR), CAST(x AS CHAR VARYING), CAST(x AS CHARACTER VARYING), CAST(x AS VARCHAR(10)), CAST(x AS VARCHAR(*)), CAST(x AS CHARACTER VARYING (3)))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:character_varying{}} cast_expression{operator_kind:cast operand:$x type:character_varying{}} cast_expression{operator_kind:cast operand:$x type:character_varying{}} cast_expression{operator_kind:cast operand:$x type:character_varying{length:10}} cast_expression{operator_kind:cast operand:$x type:character_varying{length:*}} cast_expression{operator_kind:cast operand:$x type:character_varying{length:3}}]}]}")
CASE("VALUES (CAST(x AS BINARY), CAST(x AS BINARY(4)), CAST(x AS VARBINARY), CAST(x AS BINARY VARYING), CAST(x AS VARBINARY(5)), CAST(x AS BINARY VARYING (*)))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:octet{type_kind:octet}} cast_expression{operator_kind:cast operand:$x type:octet{type_kind:octet length:4}} cast_expression{operator_kind:cast operand:$x type:octet_varying{type_kind:octet_varying}} cast_expression{operator_kind:cast operand:$x type:octet_varying{type_kind:octet_varying}} cast_expression{operator_kind:cast operand:$x type:octet_varying{type_kind:octet_varying length:5}} cast_expression{operator_kind:cast operand:$x type:octet_varying{type_kind:octet_varying length:*}}]}]}")
CASE("VALUES (CAST(x AS DECIMAL), CAST(x AS DEC), CAST(x AS NUMERIC), CAST(x AS DECIMAL(10)), CAST(x AS DECIMAL(*)), CAST(x AS NUMERIC(10, 2)), CAST(x AS DEC(10, *)), CAST(x AS DECIMAL(*, *)), CAST(x AS DECIMAL(*, 3)))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:decimal{}} cast_expression{operator_kind:cast operand:$x type:decimal{}} cast_expression{operator_kind:cast operand:$x type:numeric{}} cast_expression{operator_kind:cast operand:$x type:decimal{precision:10}} cast_expression{operator_kind:cast operand:$x type:decimal{precision:*}} cast_expression{operator_kind:cast operand:$x type:numeric{precision:10 scale:2}} cast_expression{operator_kind:cast operand:$x type:decimal{precision:10 scale:*}} cast_expression{operator_kind:cast operand:$x type:decimal{precision:* scale:*}} cast_expression{operator_kind:cast operand:$x type:decimal{precision:* scale:3}}]}]}")
CASE("VALUES (CAST(x AS INT), CAST(x AS INTEGER), CAST(x AS INT(4)), CAST(x AS INTEGER (8)), CAST(x AS TINYINT), CAST(x AS SMALLINT), CAST(x AS BIGINT))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:integer{}} cast_expression{operator_kind:cast operand:$x type:integer{}} cast_expression{operator_kind:cast operand:$x type:binary_integer{precision:4}} cast_expression{operator_kind:cast operand:$x type:binary_integer{precision:8}} cast_expression{operator_kind:cast operand:$x type:tiny_integer{}} cast_expression{operator_kind:cast operand:$x type:small_integer{}} cast_expression{operator_kind:cast operand:$x type:big_integer{}}]}]}")
CASE("VALUES (CAST(x AS FLOAT), CAST(x AS REAL), CAST(x AS DOUBLE), CAST(x AS DOUBLE PRECISION), CAST(x AS FLOAT(24)))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:float{}} cast_expression{operator_kind:cast operand:$x type:real{}} cast_expression{operator_kind:cast operand:$x type:double_precision{}} cast_expression{operator_kind:cast operand:$x type:double_precision{}} cast_expression{operator_kind:cast operand:$x type:binary_float{precision:24}}]}]}")
CASE("VALUES (CAST(x AS BOOLEAN), CAST(x AS DATE), CAST(x AS TIME), CAST(x AS TIME WITH TIME ZONE), CAST(x AS TIME WITHOUT TIME ZONE), CAST(x AS TIMESTAMP), CAST(x AS TIMESTAMP WITH TIME ZONE), CAST(x AS TIMESTAMP WITHOUT TIME ZONE), CAST(x AS INTERVAL))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:boolean{}} cast_expression{operator_kind:cast operand:$x type:date{}} cast_expression{operator_kind:cast operand:$x type:time{}} cast_expression{operator_kind:cast operand:$x type:time{has_time_zone:yes}} cast_expression{operator_kind:cast operand:$x type:time{}} cast_expression{operator_kind:cast operand:$x type:timestamp{}} cast_expression{operator_kind:cast operand:$x type:timestamp{has_time_zone:yes}} cast_expression{operator_kind:cast operand:$x type:timestamp{}} cast_expression{operator_kind:cast operand:$x type:interval{}}]}]}")
CASE("VALUES (CAST(x AS BLOB), CAST(x AS BINARY LARGE OBJECT), CAST(x AS CLOB), CAST(x AS CHAR LARGE OBJECT), CAST(x AS CHARACTER LARGE OBJECT))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:binary_large_object{}} cast_expression{operator_kind:cast operand:$x type:binary_large_object{}} cast_expression{operator_kind:cast operand:$x type:character_large_object{}} cast_expression{operator_kind:cast operand:$x type:character_large_object{}} cast_expression{operator_kind:cast operand:$x type:character_large_object{}}]}]}")
CASE("VALUES (CAST(x AS ROW(a1 INT)), CAST(x AS ROW(a1 INT, b1 CHAR(2) COLLATE c1, d1 ROW(e1 DATE))))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:row{elements:[{name:a1 type:integer{}}]}} cast_expression{operator_kind:cast operand:$x type:row{elements:[{name:a1 type:integer{}} {name:b1 type:character{length:2} collation:c1} {name:d1 type:row{elements:[{name:e1 type:date{}}]}}]}}]}]}")
CASE("VALUES (CAST(x AS INT ARRAY[]), CAST(x AS INT ARRAY[5]), CAST(x AS INT ARRAY[*]), CAST(x AS INT[]), CAST(x AS INT[7]), CAST(x AS VARCHAR(3)[*]), CAST(x AS INT[2][]))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:collection{element:integer{}}} cast_expression{operator_kind:cast operand:$x type:collection{element:integer{} length:5}} cast_expression{operator_kind:cast operand:$x type:collection{element:integer{} length:*}} cast_expression{operator_kind:cast operand:$x type:collection{element:integer{}}} cast_expression{operator_kind:cast operand:$x type:collection{element:integer{} length:7}} cast_expression{operator_kind:cast operand:$x type:collection{element:character_varying{length:3} length:*}} cast_expression{operator_kind:cast operand:$x type:collection{element:collection{element:integer{} length:2}}}]}]}")
CASE("VALUES (CAST(x AS a1), CAST(x AS a1 . b1), CAST(x AS \"^a\"), CAST(x AS a1[]))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:user_defined{name:a1}} cast_expression{operator_kind:cast operand:$x type:user_defined{name:qualified{last:b1 qualifier:a1}}} cast_expression{operator_kind:cast operand:$x type:user_defined{name:\"^a\"}} cast_expression{operator_kind:cast operand:$x type:collection{element:user_defined{name:a1}}}]}]}")
CASE("VALUES (CAST(x AS CHAR(0)), CAST(x AS CHAR(18446744073709551614)), CAST(x AS INT(007)))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:character{length:0}} cast_expression{operator_kind:cast operand:$x type:character{length:18446744073709551614}} cast_expression{operator_kind:cast operand:$x type:binary_integer{precision:7}}]}]}")
CASE("VALUES (x::INT, x::DECIMAL(5, 1), x::a1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[cast_expression{operator_kind:cast operand:$x type:integer{}} cast_expression{operator_kind:cast operand:$x type:decimal{precision:5 scale:1}} cast_expression{operator_kind:cast operand:$x type:user_defined{name:a1}}]}]}")
