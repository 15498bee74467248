SELECT a1
SELECT *
SELECT a1.*
SELECT a1.b1.c1 . *
SELECT a1, b1, *
SELECT a1 AS b1
SELECT a1 b1, c1 AS d1
SELECT a1 . b1 AS c1
SELECT a1 . b1 . c1 . d1
SELECT "a""^q" AS "^r b"
SELECT ALL a1
SELECT DISTINCT a1, b1
SELECT * FROM a1
SELECT * FROM a1, b1 c1, d1 . e1 AS f1
SELECT a1 FROM b1 WHERE c1
SELECT a1 FROM b1 WHERE c1 = d1 AND e1
SELECT a1 FROM b1 GROUP BY ()
SELECT a1 FROM b1 GROUP BY c1
SELECT a1 FROM b1 GROUP BY c1, d1 + e1 COLLATE f1, g1 COLLATE h1 . i1
SELECT a1 FROM b1 HAVING c1
SELECT a1 FROM b1 GROUP BY c1 HAVING d1 > e1
SELECT a1 FROM b1 ORDER BY c1
SELECT a1 FROM b1 ORDER BY c1 ASC, d1 DESC, e1
SELECT a1 FROM b1 ORDER BY c1 NULLS FIRST, d1 ASC NULLS LAST, e1 DESC NULLS FIRST
SELECT a1 FROM b1 ORDER BY c1 COLLATE d1 DESC NULLS LAST
SELECT a1 FROM b1 LIMIT 10
SELECT a1 FROM b1 LIMIT :c1
SELECT a1 FROM b1 LIMIT ?
SELECT DISTINCT a1, b1 c1 FROM d1 e1, f1 WHERE g1 = 1 GROUP BY h1, i1 HAVING j1 < 2 ORDER BY k1 DESC, l1 LIMIT 3
TABLE a1
TABLE a1 . b1 . c1
VALUES (1)
VALUES (a1, b1), (c1, d1)
VALUES ROW(a1, b1), (SELECT c1)
VALUES (NULL, TRUE, 'a', DEFAULT)
VALUES ((a1))
VALUES (a1, (b1, c1))
TABLE a1 UNION TABLE b1
TABLE a1 UNION ALL TABLE b1
TABLE a1 UNION DISTINCT TABLE b1
TABLE a1 OUTER UNION TABLE b1
TABLE a1 EXCEPT ALL TABLE b1
TABLE a1 INTERSECT DISTINCT TABLE b1
TABLE a1 UNION CORRESPONDING TABLE b1
TABLE a1 UNION ALL CORRESPONDING BY (c1, d1) TABLE b1
TABLE a1 UNION (TABLE b1 EXCEPT TABLE c1)
(TABLE a1 UNION TABLE b1) INTERSECT TABLE c1
SELECT a1 FROM b1 WHERE c1 ORDER BY d1 LIMIT 1 UNION SELECT e1
WITH a1 AS (TABLE b1) TABLE a1
WITH RECURSIVE a1 (b1, c1) AS (TABLE d1 UNION ALL TABLE a1), e1 AS (VALUES (1)) SELECT * FROM a1, e1
WITH a1 AS (WITH b1 AS (TABLE c1) TABLE b1) TABLE a1 UNION TABLE d1
SELECT (SELECT a1), (SELECT b1 FROM c1 WHERE d1) e1
SELECT a1 FROM (SELECT b1 FROM c1) d1
SELECT a1 FROM (TABLE c1 UNION TABLE d1) AS e1 (f1, g1)
SELECT a1 FROM b1 WHERE EXISTS (SELECT * FROM c1) OR d1 IN (SELECT e1 FROM f1)
SELECT NEXT VALUE FOR a1
