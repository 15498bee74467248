VALUES (a1(), b1(1), c1(d1, 'x', NULL), e1(f1(g1())))
VALUES (a1(b1 AS INT), a1(b1 AS c1, d1))
VALUES (ABS(a1), CEIL(a1), FLOOR(a1), MOD(a1, b1), UPPER(a1), LOWER(a1), LENGTH(a1))
VALUES (CHAR_LENGTH(a1), CHARACTER_LENGTH(a1), OCTET_LENGTH(a1), CARDINALITY(a1))
VALUES (POSITION(a1 IN b1), SUBSTRING(a1 FROM b1), SUBSTRING(a1 FROM b1 FOR c1))
VALUES (CONVERT(a1 USING b1), TRANSLATE(a1 USING b1 . c1))
VALUES (TRIM(a1), TRIM(FROM a1), TRIM(a1 FROM b1), TRIM(LEADING FROM a1), TRIM(TRAILING a1 FROM b1), TRIM(BOTH a1 FROM b1), TRIM(BOTH FROM a1))
VALUES (OVERLAY(a1 PLACING b1 FROM c1), OVERLAY(a1 PLACING b1 FROM c1 FOR d1))
VALUES (CURRENT_DATE, CURRENT_TIME, LOCALTIME, CURRENT_TIMESTAMP, LOCALTIMESTAMP)
VALUES (CURRENT_TIME(a1), LOCALTIME(1), CURRENT_TIMESTAMP(b1), LOCALTIMESTAMP(c1 + 1))
VALUES (EXTRACT(YEAR FROM a1), EXTRACT(MONTH FROM a1), EXTRACT(DAY FROM a1), EXTRACT(HOUR FROM a1), EXTRACT(MINUTE FROM a1), EXTRACT(SECOND FROM a1))
VALUES (EXTRACT(TIMEZONE_HOUR FROM a1), EXTRACT(TIMEZONE_MINUTE FROM a1), EXTRACT(DATE FROM a1))
VALUES (EXTRACT(YEAR TO MONTH FROM a1), EXTRACT(YEAR TO DAY FROM a1), EXTRACT(YEAR TO HOUR FROM a1), EXTRACT(YEAR TO MINUTE FROM a1), EXTRACT(YEAR TO SECOND FROM a1))
VALUES (EXTRACT(SECOND(3) FROM a1), EXTRACT(SECOND(*) FROM a1), EXTRACT(YEAR TO SECOND(6) FROM a1), EXTRACT(YEAR TO SECOND(*) FROM a1))
VALUES (COUNT(*), COUNT(a1), COUNT(ALL a1), COUNT(DISTINCT a1))
VALUES (AVG(a1), MAX(a1), MIN(DISTINCT a1), SUM(ALL a1), EVERY(a1))
VALUES (BIT_AND(a1), BIT_OR(a1), BOOL_AND(a1), BOOL_OR(DISTINCT a1))
VALUES (NULLIF(a1, b1), COALESCE(a1), COALESCE(a1, b1, 1))
VALUES (CASE WHEN a1 THEN b1 END, CASE WHEN a1 THEN b1 WHEN c1 = 1 THEN d1 ELSE e1 END)
VALUES (CASE a1 WHEN b1 THEN c1 END, CASE a1 WHEN 1 THEN b1 WHEN 2 THEN c1 ELSE d1 END)
VALUES (CAST(a1 AS INT), CAST(NULL AS CHAR), TREAT(a1 AS b1), (a1 AS b1), (a1 + 1 AS INT))
VALUES (NEW a1(), NEW a1 . b1(c1, 1), NEW a1(b1 AS INT))
VALUES (a1 . b1, a1 -> b1, a1 . b1 -> c1, (a1) . b1, f(a1) . b1 . c1)
VALUES (a1 . b1(c1), a1 -> b1(), a1 :: b1(c1, 1), a1 . b1 . c1(1))
VALUES (a1[1], a1[b1][c1], a1 . b1[2], ARRAY[a1][1], a1[b1 + 1])
VALUES (DEREF(a1), DEREF(a1 -> b1))
VALUES (:a1, :a1 + :b1, ?, ? * ?)
VALUES (NEXT VALUE FOR a1, NEXT VALUE FOR a1 . b1, NEXT VALUE FOR a1 . b1 . c1)
