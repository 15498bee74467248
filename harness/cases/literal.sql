VALUES (0, 1, 12345678901234567890123)
VALUES (1.5, 00.10, 123.456)
VALUES (1e5, 1.5e10, 2e+3, 2.0e-3)
VALUES (-1, +2, - 3.5, + 1e5, - 2e-1)
VALUES (- - 1, + - 2, -(-3))
VALUES ('', 'a', 'it''s', '^a^b')
VALUES ('^a' '^b', 'x' '' 'y''z')
VALUES (X'', x'0aF', X'12' '34' '5')
VALUES (DATE '2000-01-01', DATE '^a')
VALUES (TIME '00:00:00', TIME WITH TIME ZONE '^b', TIME WITHOUT TIME ZONE '1')
VALUES (TIMESTAMP '2000', TIMESTAMP WITH TIME ZONE '^b', TIMESTAMP WITHOUT TIME ZONE '^c')
VALUES (INTERVAL '1', INTERVAL + '2', INTERVAL - '^d')
VALUES (TRUE, FALSE, UNKNOWN, NULL)
VALUES (DEFAULT, ARRAY[], ARRAY [ ])
VALUES (ARRAY[1], ARRAY[a1, 'b', NULL], ARRAY[ARRAY[1], ARRAY[]])
