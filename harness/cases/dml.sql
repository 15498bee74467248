INSERT INTO a1 VALUES (1)
INSERT INTO a1 . b1 VALUES (1, c1), (2, DEFAULT)
INSERT INTO a1 (b1) VALUES (1)
INSERT INTO a1 (b1, c1) VALUES (1, 2)
INSERT INTO a1 DEFAULT VALUES
INSERT INTO a1 (b1) DEFAULT VALUES
INSERT INTO a1 SELECT b1 FROM c1
INSERT INTO a1 (b1, c1) TABLE d1
INSERT INTO a1 WITH b1 AS (TABLE c1) TABLE b1
INSERT OR REPLACE INTO a1 (b1) VALUES (?)
INSERT OR IGNORE INTO a1 VALUES (:b1)
INSERT IF NOT EXISTS INTO a1 VALUES (1)
UPDATE OR INSERT INTO a1 VALUES (1)
UPDATE a1 SET b1 = 1
UPDATE a1 . b1 SET c1 = d1, e1 . f1 = DEFAULT
UPDATE a1 b1 SET c1 = 1 WHERE d1 = 2
UPDATE a1 AS b1 SET c1 = NULL WHERE d1 AND e1 OR f1
UPDATE a1 SET b1 = (SELECT c1 FROM d1) WHERE CURRENT OF e1
DELETE FROM a1
DELETE FROM a1 . b1 WHERE c1
DELETE FROM a1 b1 WHERE c1 = ?
DELETE FROM a1 AS b1 WHERE CURRENT OF c1
TRUNCATE TABLE a1
TRUNCATE TABLE a1 . b1 RESTART IDENTITY
TRUNCATE TABLE a1 CONTINUE IDENTITY
GRANT ALL PRIVILEGES ON a1 TO b1
GRANT SELECT ON TABLE a1 TO PUBLIC
GRANT SELECT, INSERT, UPDATE, DELETE ON a1 . b1, TABLE c1 TO d1, PUBLIC, CURRENT_USER, *
REVOKE ALL PRIVILEGES ON TABLE a1 FROM *
REVOKE INSERT, DELETE ON a1, TABLE b1 . c1 FROM d1, CURRENT_USER
