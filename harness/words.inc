// the documented key words: W(spelling, token)
W("ABS", ABS)
W("ABSOLUTE", ABSOLUTE)
W("ACTION", ACTION)
W("ADD", ADD)
W("ADMIN", ADMIN)
W("AFTER", AFTER)
W("ALIAS", ALIAS)
W("ALL", ALL)
W("ALTER", ALTER)
W("ALWAYS", ALWAYS)
W("AND", AND)
W("ANY", ANY)
W("APPLY", APPLY)
W("ARE", ARE)
W("ARRAY", ARRAY)
W("AS", AS)
W("ASC", ASC)
W("ASSERTION", ASSERTION)
W("ASYMMETRIC", ASYMMETRIC)
W("AT", AT)
W("AUTHORIZATION", AUTHORIZATION)
W("AVG", AVG)
W("BEFORE", BEFORE)
W("BEGIN", BEGIN_)
W("BETWEEN", BETWEEN)
W("BIGINT", BIGINT)
W("BINARY", BINARY)
W("BIT_AND", BIT_AND)
W("BIT_OR", BIT_OR)
W("BLOB", BLOB)
W("BOOLEAN", BOOLEAN)
W("BOOL_AND", BOOL_AND)
W("BOOL_OR", BOOL_OR)
W("BOTH", BOTH)
W("BY", BY)
W("CALL", CALL)
W("CARDINALITY", CARDINALITY)
W("CASCADE", CASCADE)
W("CASCADED", CASCADED)
W("CASE", CASE)
W("CAST", CAST)
W("CEIL", CEIL)
W("CHAR", CHAR)
W("CHARACTER", CHARACTER)
W("CHARACTER_LENGTH", CHARACTER_LENGTH)
W("CHAR_LENGTH", CHAR_LENGTH)
W("CHECK", CHECK)
W("CLASS", CLASS)
W("CLOB", CLOB)
W("CLOSE", CLOSE)
W("COALESCE", COALESCE)
W("COLLATE", COLLATE)
W("COLUMN", COLUMN)
W("COMMIT", COMMIT)
W("CONNECT", CONNECT)
W("CONSTRAINT", CONSTRAINT)
W("CONSTRAINTS", CONSTRAINTS)
W("CONTINUE", CONTINUE)
W("CONVERT", CONVERT)
W("CORRESPONDING", CORRESPONDING)
W("COUNT", COUNT)
W("CREATE", CREATE)
W("CROSS", CROSS)
W("CUBE", CUBE)
W("CURRENT", CURRENT)
W("CURRENT_DATE", CURRENT_DATE)
W("CURRENT_PATH", CURRENT_PATH)
W("CURRENT_ROLE", CURRENT_ROLE)
W("CURRENT_TIME", CURRENT_TIME)
W("CURRENT_TIMESTAMP", CURRENT_TIMESTAMP)
W("CURRENT_USER", CURRENT_USER)
W("CURSOR", CURSOR)
W("CYCLE", CYCLE)
W("DATE", DATE)
W("DAY", DAY)
W("DEALLOCATE", DEALLOCATE)
W("DEC", DEC)
W("DECIMAL", DECIMAL)
W("DECLARE", DECLARE)
W("DEFAULT", DEFAULT)
W("DELETE", DELETE)
W("DEREF", DEREF)
W("DESC", DESC)
W("DESCRIBE", DESCRIBE)
W("DETERMINISTIC", DETERMINISTIC)
W("DISCONNECT", DISCONNECT)
W("DISTINCT", DISTINCT)
W("DOUBLE", DOUBLE)
W("DROP", DROP)
W("DYNAMIC", DYNAMIC)
W("EACH", EACH)
W("ELSE", ELSE)
W("END", END)
W("END-EXEC", END_EXEC)
W("ESCAPE", ESCAPE)
W("EVERY", EVERY)
W("EXCEPT", EXCEPT)
W("EXEC", EXEC)
W("EXECUTE", EXECUTE)
W("EXISTS", EXISTS)
W("EXTERNAL", EXTERNAL)
W("EXTRACT", EXTRACT)
W("FALSE", FALSE)
W("FETCH", FETCH)
W("FIRST", FIRST)
W("FLOAT", FLOAT)
W("FLOOR", FLOOR)
W("FOR", FOR)
W("FOREIGN", FOREIGN)
W("FROM", FROM)
W("FULL", FULL)
W("FUNCTION", FUNCTION)
W("GENERATED", GENERATED)
W("GET", GET)
W("GLOBAL", GLOBAL)
W("GRANT", GRANT)
W("GROUP", GROUP)
W("GROUPING", GROUPING)
W("HAVING", HAVING)
W("HOUR", HOUR)
W("IDENTITY", IDENTITY)
W("IF", IF)
W("IGNORE", IGNORE)
W("IN", IN)
W("INCLUDE", INCLUDE)
W("INCREMENT", INCREMENT)
W("INDEX", INDEX)
W("INDICATOR", INDICATOR)
W("INNER", INNER)
W("INOUT", INOUT)
W("INSERT", INSERT)
W("INT", INT)
W("INTEGER", INTEGER)
W("INTERSECT", INTERSECT)
W("INTERVAL", INTERVAL)
W("INTO", INTO)
W("IS", IS)
W("JOIN", JOIN)
W("KEY", KEY)
W("LANGUAGE", LANGUAGE)
W("LARGE", LARGE)
W("LAST", LAST)
W("LATERAL", LATERAL)
W("LEADING", LEADING)
W("LEFT", LEFT)
W("LENGTH", LENGTH)
W("LIKE", LIKE)
W("LIMIT", LIMIT)
W("LOCAL", LOCAL)
W("LOCALTIME", LOCALTIME)
W("LOCALTIMESTAMP", LOCALTIMESTAMP)
W("LOWER", LOWER)
W("MATCH", MATCH)
W("MAX", MAX)
W("MAXVALUE", MAXVALUE)
W("MIN", MIN)
W("MINUTE", MINUTE)
W("MINVALUE", MINVALUE)
W("MOD", MOD)
W("MODIFIES", MODIFIES)
W("MODULE", MODULE)
W("MONTH", MONTH)
W("NATIONAL", NATIONAL)
W("NATURAL", NATURAL)
W("NCHAR", NCHAR)
W("NCLOB", NCLOB)
W("NEW", NEW)
W("NEXT", NEXT)
W("NO", NO)
W("NONE", NONE)
W("NOT", NOT)
W("NULL", NULL_)
W("NULLIF", NULLIF)
W("NULLS", NULLS)
W("NUMERIC", NUMERIC)
W("OBJECT", OBJECT)
W("OCTET_LENGTH", OCTET_LENGTH)
W("OF", OF)
W("OLD", OLD)
W("ON", ON)
W("ONLY", ONLY)
W("OPEN", OPEN)
W("OR", OR)
W("ORDER", ORDER)
W("ORDINALITY", ORDINALITY)
W("OUT", OUT)
W("OUTER", OUTER)
W("OVERLAPS", OVERLAPS)
W("OVERLAY", OVERLAY)
W("OWNED", OWNED)
W("PARAMETER", PARAMETER)
W("PLACING", PLACING)
W("POSITION", POSITION)
W("PRECISION", PRECISION)
W("PREPARE", PREPARE)
W("PRIMARY", PRIMARY)
W("PRIVILEGES", PRIVILEGES)
W("PROCEDURE", PROCEDURE)
W("PUBLIC", PUBLIC)
W("REAL", REAL)
W("RECURSIVE", RECURSIVE)
W("REF", REF)
W("REFERENCES", REFERENCES)
W("REFERENCING", REFERENCING)
W("RENAME", RENAME)
W("REPLACE", REPLACE)
W("RESTART", RESTART)
W("RESTRICT", RESTRICT)
W("RESULT", RESULT)
W("RETURN", RETURN)
W("RETURNS", RETURNS)
W("REVOKE", REVOKE)
W("RIGHT", RIGHT)
W("ROLE", ROLE)
W("ROLLBACK", ROLLBACK)
W("ROLLUP", ROLLUP)
W("ROW", ROW)
W("ROWS", ROWS)
W("SAVEPOINT", SAVEPOINT)
W("SCHEMA", SCHEMA)
W("SCOPE", SCOPE)
W("SEARCH", SEARCH)
W("SECOND", SECOND)
W("SELECT", SELECT)
W("SEQUENCE", SEQUENCE)
W("SESSION_USER", SESSION_USER)
W("SET", SET)
W("SIMILAR", SIMILAR)
W("SMALLINT", SMALLINT)
W("SOME", SOME)
W("SPECIFIC", SPECIFIC)
W("SQL", SQL)
W("SQLEXCEPTION", SQLEXCEPTION)
W("SQLSTATE", SQLSTATE)
W("SQLWARNING", SQLWARNING)
W("START", START)
W("STATIC", STATIC)
W("SUBLIST", SUBLIST)
W("SUBSTRING", SUBSTRING)
W("SUM", SUM)
W("SYMMETRIC", SYMMETRIC)
W("SYSTEM_USER", SYSTEM_USER)
W("TABLE", TABLE)
W("TEMPORARY", TEMPORARY)
W("THEN", THEN)
W("TIME", TIME)
W("TIMESTAMP", TIMESTAMP)
W("TIMEZONE_HOUR", TIMEZONE_HOUR)
W("TIMEZONE_MINUTE", TIMEZONE_MINUTE)
W("TINYINT", TINYINT)
W("TO", TO)
W("TRAILING", TRAILING)
W("TRANSLATE", TRANSLATE)
W("TRANSLATION", TRANSLATION)
W("TREAT", TREAT)
W("TRIGGER", TRIGGER)
W("TRIM", TRIM)
W("TRUE", TRUE)
W("TRUNCATE", TRUNCATE)
W("UNION", UNION)
W("UNIQUE", UNIQUE)
W("UNKNOWN", UNKNOWN)
W("UNNEST", UNNEST)
W("UPDATE", UPDATE)
W("UPPER", UPPER)
W("USER", USER)
W("USING", USING)
W("VALUE", VALUE)
W("VALUES", VALUES)
W("VARBINARY", VARBINARY)
W("VARCHAR", VARCHAR)
W("VARYING", VARYING)
W("VIEW", VIEW)
W("WHEN", WHEN)
W("WHENEVER", WHENEVER)
W("WHERE", WHERE)
W("WITH", WITH)
W("WITHOUT", WITHOUT)
W("YEAR", YEAR)
W("ZONE", ZONE)
