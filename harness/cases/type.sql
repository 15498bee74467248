VALUES (CAST(x AS CHAR), CAST(x AS CHARACTER), CAST(x AS CHAR(10)), CAST(x AS CHARACTER (20)))
VALUES (CAST(x AS VARCHAR), CAST(x AS CHAR VARYING), CAST(x AS CHARACTER VARYING), CAST(x AS VARCHAR(10)), CAST(x AS VARCHAR(*)), CAST(x AS CHARACTER VARYING (3)))
VALUES (CAST(x AS BINARY), CAST(x AS BINARY(4)), CAST(x AS VARBINARY), CAST(x AS BINARY VARYING), CAST(x AS VARBINARY(5)), CAST(x AS BINARY VARYING (*)))
VALUES (CAST(x AS DECIMAL), CAST(x AS DEC), CAST(x AS NUMERIC), CAST(x AS DECIMAL(10)), CAST(x AS DECIMAL(*)), CAST(x AS NUMERIC(10, 2)), CAST(x AS DEC(10, *)), CAST(x AS DECIMAL(*, *)), CAST(x AS DECIMAL(*, 3)))
VALUES (CAST(x AS INT), CAST(x AS INTEGER), CAST(x AS INT(4)), CAST(x AS INTEGER (8)), CAST(x AS TINYINT), CAST(x AS SMALLINT), CAST(x AS BIGINT))
VALUES (CAST(x AS FLOAT), CAST(x AS REAL), CAST(x AS DOUBLE), CAST(x AS DOUBLE PRECISION), CAST(x AS FLOAT(24)))
VALUES (CAST(x AS BOOLEAN), CAST(x AS DATE), CAST(x AS TIME), CAST(x AS TIME WITH TIME ZONE), CAST(x AS TIME WITHOUT TIME ZONE), CAST(x AS TIMESTAMP), CAST(x AS TIMESTAMP WITH TIME ZONE), CAST(x AS TIMESTAMP WITHOUT TIME ZONE), CAST(x AS INTERVAL))
VALUES (CAST(x AS BLOB), CAST(x AS BINARY LARGE OBJECT), CAST(x AS CLOB), CAST(x AS CHAR LARGE OBJECT), CAST(x AS CHARACTER LARGE OBJECT))
VALUES (CAST(x AS ROW(a1 INT)), CAST(x AS ROW(a1 INT, b1 CHAR(2) COLLATE c1, d1 ROW(e1 DATE))))
VALUES (CAST(x AS INT ARRAY[]), CAST(x AS INT ARRAY[5]), CAST(x AS INT ARRAY[*]), CAST(x AS INT[]), CAST(x AS INT[7]), CAST(x AS VARCHAR(3)[*]), CAST(x AS INT[2][]))
VALUES (CAST(x AS a1), CAST(x AS a1 . b1), CAST(x AS "^a"), CAST(x AS a1[]))
VALUES (CAST(x AS CHAR(0)), CAST(x AS CHAR(18446744073709551614)), CAST(x AS INT(007)))
VALUES (x::INT, x::DECIMAL(5, 1), x::a1)
