CASE("VALUES (0, 1, 12345678901234567890123)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#0 #1 #12345678901234567890123]}]}")
CASE("VALUES (1.5, 00.10, 123.456)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#1.5 #00.10 #123.456]}]}")
CASE("VALUES (1e5, 1.5e10, 2e+3, 2.0e-3)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[approximate_numeric{unsigned_value:1e5} approximate_numeric{unsigned_value:1.5e10} approximate_numeric{unsigned_value:2e+3} approximate_numeric{unsigned_value:2.0e-3}]}]}")
CASE("VALUES (-1, +2, - 3.5, + 1e5, - 2e-1)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[#-1 #+2 #-3.5 approximate_numeric{sign:plus unsigned_value:1e5} approximate_numeric{sign:minus unsigned_value:2e-1}]}]}")
CASE("VALUES (- - 1, + - 2, -(-3))",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[unary_expression{operator_kind:minus operand:#-1} unary_expression{operator_kind:plus operand:#-2} unary_expression{operator_kind:minus operand:#-3}]}]}")
CASE("VALUES ('', 'a', 'it''s', '^a^b')",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:['' 'a' 'it''s' '^a^b']}]}")
CASE("VALUES ('^a' '^b', 'x' '' 'y''z')",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[character_string{value:'^a' concatenations:['^b']} character_string{value:'x' concatenations:['' 'y''z']}]}]}")
CASE("VALUES (X'', x'0aF', X'12' '34' '5')",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[hex_string{value:''} hex_string{value:'0aF'} hex_string{value:'12' concatenations:['34' '5']}]}]}")
CASE("VALUES (DATE '2000-01-01', DATE '^a')",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[date{value:'2000-01-01'} date{value:'^a'}]}]}")
CASE("VALUES (TIME '00:00:00', TIME WITH TIME ZONE '^b', TIME WITHOUT TIME ZONE '1')",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[time{value:'00:00:00'} time_with_time_zone{value:'^b'} time{value:'1'}]}]}")
CASE("VALUES (TIMESTAMP '2000', TIMESTAMP WITH TIME ZONE '^b', TIMESTAMP WITHOUT TIME ZONE '^c')",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[timestamp{value:'2000'} timestamp_with_time_zone{value:'^b'} timestamp{value:'^c'}]}]}")
CASE("VALUES (INTERVAL '1', INTERVAL + '2', INTERVAL - '^d')",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[interval{value:'1'} interval{sign:plus value:'2'} interval{sign:minus value:'^d'}]}]}")
CASE("VALUES (TRUE, FALSE, UNKNOWN, NULL)",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[boolean{value:TRUE} boolean{value:FALSE} boolean{value:UNKNOWN} null{}]}]}")
CASE("VALUES (DEFAULT, ARRAY[], ARRAY [ ])",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[default{} empty{} empty{}]}]}")
CASE("VALUES (ARRAY[1], ARRAY[a1, 'b', NULL], ARRAY[ARRAY[1], ARRAY[]])",
    "table_value_constructor{elements:[value_constructor{operator_kind:row elements:[value_constructor{operator_kind:array elements:[#1]} value_constructor{operator_kind:array elements:[$a1 'b' null{}]} value_constructor{operator_kind:array elements:[value_constructor{operator_kind:array elements:[#1]} empty{}]}]}]}")
