VALUES (a1 = b1, a1 <> b1, a1 != b1, a1 < b1, a1 > b1, a1 <= b1, a1 >= b1)
VALUES (a1 <@ b1, a1 @> b1, a1 && b1)
VALUES (a1 = ALL (TABLE b1), a1 < SOME (SELECT b1), a1 >= ANY (VALUES (1)))
VALUES (a1 BETWEEN b1 AND c1, a1 NOT BETWEEN SYMMETRIC b1 AND c1, a1 BETWEEN ASYMMETRIC b1 AND c1)
VALUES (a1 IN (b1), a1 NOT IN (b1, c1), a1 IN (SELECT b1), a1 NOT IN (TABLE b1))
VALUES (a1 LIKE b1, a1 NOT LIKE b1 ESCAPE c1, a1 SIMILAR TO b1, a1 NOT SIMILAR TO b1 ESCAPE 'x')
VALUES (EXISTS (TABLE a1), UNIQUE (SELECT a1), a1 OVERLAPS b1)
VALUES (a1 IS NULL, a1 IS NOT NULL, a1 IS TRUE, a1 IS NOT UNKNOWN, a1 = b1 IS FALSE)
VALUES (NOT a1, a1 AND b1, a1 OR b1 AND NOT c1, NOT (a1 OR b1))
VALUES (a1 + b1 * c1, a1 - b1 / c1 % d1, a1 || b1 || c1, -a1, + a1, -(a1 + b1))
VALUES (a1 AT LOCAL, a1 AT TIME ZONE b1, a1 AT TIME ZONE - '^c', a1 AT TIME ZONE +1)
VALUES (ROW(a1, b1) = ROW(c1, d1), (a1, b1) < (c1, d1), ROW(a1) IN (TABLE b1))
