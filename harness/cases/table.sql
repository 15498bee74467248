SELECT * FROM a1 b1 (c1, d1)
SELECT * FROM a1 AS b1 (c1)
SELECT * FROM LATERAL (TABLE a1) b1
SELECT * FROM LATERAL (TABLE a1) AS b1 (c1, d1)
SELECT * FROM UNNEST (a1) b1
SELECT * FROM UNNEST (a1 . b1) WITH ORDINALITY AS c1 (d1, e1)
SELECT * FROM ONLY (a1)
SELECT * FROM ONLY (a1 . b1) AS c1 (d1)
SELECT * FROM a1 CROSS JOIN b1
SELECT * FROM a1 JOIN b1 ON c1
SELECT * FROM a1 INNER JOIN b1 ON c1 = d1
SELECT * FROM a1 LEFT JOIN b1 ON c1
SELECT * FROM a1 LEFT OUTER JOIN b1 USING (c1, d1)
SELECT * FROM a1 RIGHT JOIN b1 ON c1
SELECT * FROM a1 RIGHT OUTER JOIN b1 ON c1
SELECT * FROM a1 FULL JOIN b1 USING (c1)
SELECT * FROM a1 FULL OUTER JOIN b1 ON c1
SELECT * FROM a1 NATURAL JOIN b1
SELECT * FROM a1 NATURAL INNER JOIN b1
SELECT * FROM a1 NATURAL LEFT JOIN b1
SELECT * FROM a1 NATURAL LEFT OUTER JOIN b1
SELECT * FROM a1 NATURAL RIGHT JOIN b1
SELECT * FROM a1 NATURAL RIGHT OUTER JOIN b1
SELECT * FROM a1 NATURAL FULL JOIN b1
SELECT * FROM a1 NATURAL FULL OUTER JOIN b1
SELECT * FROM a1 UNION JOIN b1
SELECT * FROM a1 APPLY b1() c1
SELECT * FROM a1 CROSS APPLY b1(c1, 1) d1
SELECT * FROM a1 OUTER APPLY b1 . c1(d1 AS INT) AS e1 (f1, g1)
SELECT * FROM a1 JOIN b1 ON c1 JOIN d1 ON e1
SELECT * FROM a1 JOIN b1 JOIN c1 ON d1 ON e1
SELECT * FROM a1 JOIN (b1 JOIN c1 ON d1) ON e1
SELECT * FROM a1 CROSS JOIN b1 CROSS JOIN c1
SELECT * FROM a1 CROSS JOIN (b1 CROSS JOIN c1)
SELECT * FROM a1 LEFT JOIN b1 USING (c1) CROSS JOIN d1 APPLY e1(f1) g1
SELECT * FROM (a1 CROSS JOIN b1) NATURAL JOIN c1, d1 UNION JOIN e1
SELECT * FROM a1 b1 JOIN c1 AS d1 ON e1 JOIN (TABLE f1) g1 USING (h1)
