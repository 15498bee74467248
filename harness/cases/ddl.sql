CREATE TABLE a1 (b1 INT)
CREATE TABLE a1 ()
CREATE TEMPORARY TABLE IF NOT EXISTS a1 . b1 (c1 INT, d1 VARCHAR(*))
CREATE TABLE a1 (b1 INT NULL, c1 INT NOT NULL, d1 INT DEFAULT 1, e1 INT CHECK (f1), g1 INT UNIQUE, h1 INT PRIMARY KEY)
CREATE TABLE a1 (b1 INT CONSTRAINT c1 NOT NULL CONSTRAINT d1 . e1 DEFAULT f1 + 1 PRIMARY KEY)
CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS (c1 + 1))
CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY, c1 INT GENERATED BY DEFAULT AS IDENTITY)
CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY ())
CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY (START WITH 1 INCREMENT BY 2 MINVALUE 3 MAXVALUE 4 CYCLE))
CREATE TABLE a1 (b1 INT GENERATED BY DEFAULT AS IDENTITY (START 1 INCREMENT -2 NO MINVALUE NO MAXVALUE NO CYCLE))
CREATE TABLE a1 (b1 INT UNIQUE INCLUDE (c1, d1 + 1) WITH (e1, f1 = 1), g1 INT PRIMARY KEY INCLUDE () WITH ())
CREATE TABLE a1 (b1 INT REFERENCES c1)
CREATE TABLE a1 (b1 INT REFERENCES c1 . d1 (e1, f1) ON UPDATE CASCADE)
CREATE TABLE a1 (b1 INT REFERENCES c1 ON DELETE SET NULL, d1 INT REFERENCES e1 ON UPDATE SET DEFAULT ON DELETE RESTRICT, f1 INT REFERENCES g1 ON DELETE NO ACTION ON UPDATE CASCADE)
CREATE TABLE a1 (b1 INT, PRIMARY KEY (b1))
CREATE TABLE a1 (b1 INT, CONSTRAINT c1 PRIMARY KEY (b1 DESC, d1 COLLATE e1 ASC NULLS LAST) INCLUDE (f1) WITH (g1 . h1 = 'x'))
CREATE TABLE a1 (UNIQUE (b1, c1), CHECK (d1), CONSTRAINT e1 . f1 CHECK (g1))
CREATE TABLE a1 (FOREIGN KEY (b1, c1) REFERENCES d1, CONSTRAINT e1 FOREIGN KEY (f1) REFERENCES g1 (h1) ON DELETE CASCADE ON UPDATE NO ACTION)
CREATE TABLE a1 (b1 INT) WITH (c1, d1 . e1, f1 = 1, g1 = -2)
CREATE INDEX ON a1 (b1)
CREATE INDEX a1 ON b1 (c1)
CREATE UNIQUE INDEX IF NOT EXISTS a1 . b1 ON c1 . d1 (e1 ASC, f1 DESC NULLS FIRST, g1 + 1 COLLATE h1) INCLUDE (i1, j1) WITH (k1 = 1) WHERE l1 = 2
CREATE UNIQUE INDEX a1 ON b1 (c1) INCLUDE ()
CREATE VIEW a1 AS TABLE b1
CREATE TEMPORARY RECURSIVE VIEW IF NOT EXISTS a1 . b1 (c1, d1) WITH (e1 = 1) AS SELECT * FROM f1
CREATE OR REPLACE VIEW a1 AS VALUES (1)
CREATE OR REPLACE TEMPORARY RECURSIVE VIEW IF NOT EXISTS a1 (b1) WITH (c1) AS TABLE d1
CREATE SEQUENCE a1
CREATE TEMPORARY SEQUENCE IF NOT EXISTS a1 . b1 AS BIGINT START WITH 1 INCREMENT BY 2 MINVALUE 3 MAXVALUE 4 CYCLE OWNED BY c1 . d1
CREATE SEQUENCE a1 START 1 INCREMENT 2 NO MINVALUE NO MAXVALUE NO CYCLE
CREATE SEQUENCE a1 NO CYCLE MAXVALUE b1 OWNED BY c1 AS INT
CREATE SCHEMA a1
CREATE SCHEMA
CREATE SCHEMA IF NOT EXISTS a1 . b1 AUTHORIZATION c1
CREATE SCHEMA AUTHORIZATION CURRENT_ROLE
CREATE SCHEMA a1 AUTHORIZATION CURRENT_USER
CREATE SCHEMA a1 AUTHORIZATION SESSION_USER CREATE TABLE b1 (c1 INT) CREATE INDEX ON b1 (c1) CREATE VIEW d1 AS TABLE b1 CREATE SEQUENCE e1
ALTER TABLE a1 RENAME TO b1
ALTER TABLE IF EXISTS a1 . b1 RENAME TO c1
ALTER TABLE a1 RENAME COLUMN b1 TO c1
ALTER TABLE IF EXISTS a1 RENAME COLUMN IF EXISTS b1 TO c1
ALTER INDEX a1 RENAME TO b1
ALTER INDEX IF EXISTS a1 . b1 RENAME TO c1
DROP TABLE a1
DROP TABLE IF EXISTS a1 . b1 CASCADE
DROP INDEX a1 RESTRICT
DROP INDEX IF EXISTS a1
DROP VIEW IF EXISTS a1 RESTRICT
DROP VIEW a1 CASCADE
DROP SEQUENCE a1
DROP SEQUENCE IF EXISTS a1 CASCADE
DROP SCHEMA a1 . b1
DROP SCHEMA IF EXISTS a1 RESTRICT
