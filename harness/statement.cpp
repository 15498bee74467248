// Statements that change data, privileges or definitions.
#include "gen.h"
using namespace h;
namespace {
constexpr char const* m = "the statement is understood as written";
piece prop(char const* name, piece const& p) { return { p.sql, p.tree.empty() ? "" : std::string { name } + p.tree }; }
piece opt(char const* label, char const* sql, char const* tree) { return symx_choice(label, 2) ? piece { sql, tree } : piece {}; }
std::string brace(std::string const& kind, std::string const& body) { std::size_t i = 0; while (i < body.size() && body[i] == ' ') ++i; return kind + "{" + body.substr(i) + "}"; }
}
// ---- INSERT, UPDATE, DELETE, TRUNCATE
namespace {
constexpr variant inserts[] = { { "INSERT INTO ", "" }, { "INSERT OR REPLACE INTO ", " options:[or_replace]" }, { "INSERT OR IGNORE INTO ", " options:[or_ignore]" }, { "INSERT IF NOT EXISTS INTO ", " options:[or_ignore]" }, { "UPDATE OR INSERT INTO ", " options:[or_replace]" } };
piece insert_source(unsigned k) { if (k == query_forms) return { "DEFAULT VALUES", "" }; auto q = query('e', k); return { q.sql, " expression:" + q.tree }; }
piece where() { static constexpr char const* m = "where"; switch (symx_choice(m, 3)) { case 0: return {}; case 1: { auto c = any_condition('w'); return { " WHERE " + c.sql, " where:" + c.tree }; } default: return { " WHERE CURRENT OF r1", " where:current_of_cursor{name:r1}" }; } }
constexpr variant aliases[] = { { "", "" }, { " q1", " alias_name:q1" }, { " AS q1", " alias_name:q1" }, { " AS \"q^a\"", " alias_name:\"q^a\"" } };
}
SYMX_ENTRY(insert) {
    auto& o = choose("operation", inserts); auto n = any_name('a', 4); static constexpr variant columns[] = { { "", "" }, { "(b1) ", " columns:[b1]" }, { "(b1, c1) ", " columns:[b1 c1]" }, { "(b1, \"c^c\", d1) ", " columns:[b1 \"c^c\" d1]" } };
    auto c = any("columns", columns); auto s = insert_source(symx_choice("source", query_forms + 1));
    expect({ o.sql + n.sql + " " + c.sql + s.sql, "insert_statement{table_name:" + n.tree + c.tree + s.tree + o.tree + "}" }, m);
}
SYMX_ENTRY(insert_values) { auto a = symx_choice("condition", 2) ? any_condition('a') : any_value('a'); auto b = any_value('b', 4); expect({ "INSERT INTO t1 VALUES (" + a.sql + ", DEFAULT), (NULL, " + b.sql + ")", "insert_statement{table_name:t1 expression:table_value_constructor{elements:[value_constructor{operator_kind:row elements:[" + a.tree + " default{}]} value_constructor{operator_kind:row elements:[null{} " + b.tree + "]}]}}" }, m); }
SYMX_ENTRY(update) {
    auto n = any_name('a', 4); auto al = any("alias", aliases); auto k = 1 + symx_choice("assignments", 2); auto w = where();
    auto s = list(k, [](unsigned i) { auto t = name(static_cast<char>('f' + i), i); auto v = value(static_cast<char>('h' + i), 2 * i); return piece { t.sql + " = " + v.sql, "{target:" + t.tree + " value:" + v.tree + "}" }; });
    expect({ "UPDATE " + n.sql + al.sql + " SET " + s.sql + w.sql, "update_statement{table_name:" + n.tree + al.tree + " elements:[" + s.tree + "]" + w.tree + "}" }, m);
}
SYMX_ENTRY(update_values) { auto n = any_name('a', 4); auto v = symx_choice("condition", 2) ? any_condition('b') : any_value('b'); bool two = symx_choice("two", 2) != 0; expect({ "UPDATE t1 SET " + n.sql + " = " + v.sql + (two ? ", z1 = DEFAULT" : ""), "update_statement{table_name:t1 elements:[{target:" + n.tree + " value:" + v.tree + "}" + (two ? " {target:z1 value:default{}}" : "") + "]}" }, m); }
SYMX_ENTRY(remove) { auto n = any_name('a', 4); auto al = any("alias", aliases); auto w = where(); expect({ "DELETE FROM " + n.sql + al.sql + w.sql, "delete_statement{table_name:" + n.tree + al.tree + w.tree + "}" }, m); }
SYMX_ENTRY(truncate) { auto n = any_name('a', 4); static constexpr variant o[] = { { "", "" }, { " RESTART IDENTITY", " identity_column_option:restart_identity" }, { " CONTINUE IDENTITY", " identity_column_option:continue_identity" } }; auto p = any("option", o); expect({ "TRUNCATE TABLE " + n.sql + p.sql, "truncate_table_statement{name:" + n.tree + p.tree + "}" }, m); }
SYMX_ENTRY(change_needs) {
    static char const* const l[] = { "INSERT a1 VALUES (1)", "INSERT INTO VALUES (1)", "INSERT INTO a1", "INSERT INTO a1 ()", "INSERT INTO a1 () VALUES (1)", "INSERT INTO a1 VALUES ()", "INSERT INTO a1 VALUES", "INSERT INTO a1 (b1)", "INSERT INTO a1 (b1.c1) VALUES (1)", "INSERT INTO a1 (1) VALUES (1)", "INSERT OR a1 VALUES (1)", "INSERT OR UPDATE INTO a1 VALUES (1)", "INSERT IF EXISTS INTO a1 VALUES (1)", "INSERT OR REPLACE OR IGNORE INTO a1 VALUES (1)", "INSERT INTO a1 DEFAULT", "INSERT INTO a1 b1 VALUES (1)", "UPDATE OR REPLACE INTO a1 VALUES (1)", "UPDATE SET a1 = 1", "UPDATE a1", "UPDATE a1 SET", "UPDATE a1 SET b1", "UPDATE a1 SET b1 = ", "UPDATE a1 SET b1 = 1,", "UPDATE a1 SET b1 = 1 c1 = 2", "UPDATE a1 SET (b1) = 1", "UPDATE a1 SET b1 = 1 WHERE", "UPDATE a1 WHERE b1 SET c1 = 1", "UPDATE a1 SET b1 = 1 WHERE CURRENT c1", "UPDATE a1 SET b1 = 1 WHERE CURRENT OF", "UPDATE a1 SET b1 = 1 WHERE CURRENT OF c1.d1", "UPDATE a1, b1 SET c1 = 1", "UPDATE a1 (b1) SET c1 = 1", "DELETE a1", "DELETE FROM", "DELETE FROM a1 WHERE", "DELETE FROM a1, b1", "DELETE FROM a1 b1 c1", "DELETE FROM a1 LIMIT 1", "DELETE * FROM a1", "TRUNCATE a1", "TRUNCATE TABLE", "TRUNCATE TABLE a1 RESTART", "TRUNCATE TABLE a1 IDENTITY", "TRUNCATE TABLE a1 RESTART IDENTITY CONTINUE IDENTITY", "TRUNCATE TABLE a1, b1", "TRUNCATE TABLE a1 CASCADE" };
    reject(l[symx_choice("statement", sizeof(l) / sizeof(l[0]))], "a statement has exactly its parts"); symx_reach("done");
}
// ---- privileges
namespace {
constexpr variant actions[] = { { "SELECT", "{action_kind:select}" }, { "INSERT", "{action_kind:insert}" }, { "UPDATE", "{action_kind:update}" }, { "DELETE", "{action_kind:delete}" } };
constexpr variant users[] = { { "u1", "{user_kind:identifier authorization_identifier:u1}" }, { "\"u^u\"", "{user_kind:identifier authorization_identifier:\"u^u\"}" }, { "PUBLIC", "{user_kind:public}" }, { "CURRENT_USER", "{user_kind:current_user}" }, { "*", "{user_kind:all_users}" } };
piece object(char c) { auto n = any_name(c, 2); bool t = symx_choice("table", 2) != 0; return { (t ? "TABLE " : "") + n.sql, std::string { "{" } + (t ? "object_kind:table " : "") + "object_name:" + n.tree + "}" }; }
void privileges(unsigned a, unsigned o, unsigned u) {
    bool grant = symx_choice("grant", 2) != 0;
    auto x = a ? list(a, [](unsigned) { return any("action", actions); }) : piece { "ALL PRIVILEGES", "{action_kind:all_privileges}" };
    auto y = list(o, [](unsigned i) { return object(static_cast<char>('a' + i)); }); auto z = list(u, [](unsigned) { return any("user", users); });
    expect({ (grant ? "GRANT " : "REVOKE ") + x.sql + " ON " + y.sql + (grant ? " TO " : " FROM ") + z.sql, std::string { grant ? "grant" : "revoke" } + "_privilege_statement{actions:[" + x.tree + "] objects:[" + y.tree + "] users:[" + z.tree + "]}" }, m);
}
}
SYMX_ENTRY(privilege_actions) { privileges(symx_choice("actions", 5), 1, 1); }
SYMX_ENTRY(privilege_lists) { privileges(symx_choice("actions", 2), 1 + symx_choice("objects", 2), 1 + symx_choice("users", 2)); }
SYMX_ENTRY(privilege_lists3) { privileges(1, 3, 1); }
SYMX_ENTRY(privilege_users3) { privileges(0, 1, 3); }
SYMX_ENTRY(privilege_needs) {
    static char const* const l[] = { "GRANT ON a1 TO b1", "GRANT ALL ON a1 TO b1", "GRANT SELECT, ON a1 TO b1", "GRANT SELECT INSERT ON a1 TO b1", "GRANT TRUNCATE ON a1 TO b1", "GRANT ALL PRIVILEGES, SELECT ON a1 TO b1", "GRANT SELECT a1 TO b1", "GRANT SELECT ON TO b1", "GRANT SELECT ON a1", "GRANT SELECT ON a1 TO", "GRANT SELECT ON a1 FROM b1", "REVOKE SELECT ON a1 TO b1", "GRANT SELECT ON a1, TO b1", "GRANT SELECT ON a1 TO b1,", "GRANT SELECT ON a1 TO b1.c1", "GRANT SELECT ON INDEX a1 TO b1", "GRANT SELECT ON TABLE TO b1", "GRANT SELECT ON a1 b1 TO c1", "GRANT SELECT ON a1 TO CURRENT_ROLE", "GRANT SELECT ON * TO b1", "REVOKE FROM a1", "GRANT SELECT ON a1 TO ALL" };
    reject(l[symx_choice("statement", sizeof(l) / sizeof(l[0]))], "a statement has exactly its parts"); symx_reach("done");
}
// ---- tables
namespace {
constexpr variant parameters[] = { { "", "" }, { " WITH ()", "" }, { " WITH (p1)", " parameters:[{name:p1}]" }, { " WITH (p1 = 1, v1.o1)", " parameters:[{name:p1 value:#1} {name:qualified{last:o1 qualifier:v1}}]" }, { " WITH (v1.o1 = 'x', p1 = n1 + 1)", " parameters:[{name:qualified{last:o1 qualifier:v1} value:'x'} {name:p1 value:binary_expression{left:$n1 operator_kind:plus right:#1}}]" } };
constexpr variant includes[] = { { "", "" }, { " INCLUDE ()", "" }, { " INCLUDE (i1)", " values:[$i1]" }, { " INCLUDE (i1 + 1, j1)", " values:[binary_expression{left:$i1 operator_kind:plus right:#1} $j1]" } };
constexpr variant effects[] = { { "CASCADE", "cascade" }, { "SET NULL", "set_null" }, { "SET DEFAULT", "set_default" }, { "RESTRICT", "restrict" }, { "NO ACTION", "no_action" } };
/// REFERENCES with its actions in either order
piece references() {
    auto n = any_name('r', 2); static constexpr variant columns[] = { { "", "" }, { " (k1)", " target_columns:[k1]" }, { " (k1, l1)", " target_columns:[k1 l1]" } }; auto c = any("columns", columns);
    auto k = symx_choice("actions", 5); auto* u = k == 1 || k >= 3 ? &choose("on update", effects) : nullptr; auto* d = k >= 2 ? &choose("on delete", effects) : nullptr;
    std::string us = u ? std::string { " ON UPDATE " } + u->sql : "", ds = d ? std::string { " ON DELETE " } + d->sql : "", ut = u ? std::string { " on_update:" } + u->tree : "", dt = d ? std::string { " on_delete:" } + d->tree : "";
    return { "REFERENCES " + n.sql + c.sql + (k == 4 ? ds + us : us + ds), " target:" + n.tree + c.tree + ut + dt };
}
constexpr variant sequence_parts[] = { { "START WITH 1", " initial_value:#1" }, { "START s1", " initial_value:$s1" }, { "INCREMENT BY -2", " increment_value:#-2" }, { "INCREMENT 3", " increment_value:#3" }, { "MINVALUE 4", " min_value:#4" }, { "NO MINVALUE", "" }, { "MAXVALUE m1 + 5", " max_value:binary_expression{left:$m1 operator_kind:plus right:#5}" }, { "NO MAXVALUE", "" }, { "CYCLE", " cycle:yes" }, { "NO CYCLE", "" } };
constexpr unsigned part_slots[] = { 0, 0, 1, 1, 2, 2, 3, 3, 4, 4 };
constexpr unsigned constraint_forms = 12;
piece column_constraint(unsigned k, char c) {
    switch (k) {
        case 0: return { "NULL", "null{}" };
        case 1: return { "NOT NULL", "not_null{}" };
        case 2: { auto v = any_value(c, 8); return { "CHECK (" + v.sql + ")", "check{expression:" + v.tree + "}" }; }
        case 3: { auto v = any_value(c, 7); return { "DEFAULT " + v.sql, "default_clause{expression:" + v.tree + "}" }; }
        case 4: { auto v = any_value(c, 8); return { "GENERATED ALWAYS AS (" + v.sql + ")", "generation_clause{expression:" + v.tree + "}" }; }
        case 5: return { "GENERATED ALWAYS AS IDENTITY", "identity_column{generation:always}" };
        case 6: return { "GENERATED BY DEFAULT AS IDENTITY", "identity_column{generation:by_default}" };
        case 7: { auto i = any("include", includes); auto p = any("parameters", parameters); return { "UNIQUE" + i.sql + p.sql, "unique{constraint_kind:unique" + i.tree + p.tree + "}" }; }
        case 8: { auto i = any("include", includes); auto p = any("parameters", parameters); return { "PRIMARY KEY" + i.sql + p.sql, "primary_key{constraint_kind:primary_key" + i.tree + p.tree + "}" }; }
        case 9: { auto r = references(); return { r.sql, brace("referential", r.tree) }; }
        case 10: { auto& p = sequence_parts[symx_choice("part", 10)]; return { std::string { "GENERATED ALWAYS AS IDENTITY (" } + p.sql + ")", std::string { "identity_column{generation:always" } + p.tree + "}" }; }
        default: return { "GENERATED BY DEFAULT AS IDENTITY ()", "identity_column{generation:by_default}" };
    }
}
piece few_constraint(unsigned k, char c) {
    std::string n = letter(c);
    switch (k) { case 0: return { "NULL", "null{}" }; case 1: return { "NOT NULL", "not_null{}" }; case 2: return { "CHECK (" + n + ")", "check{expression:$" + n + "}" }; case 3: return { "DEFAULT 1", "default_clause{expression:#1}" }; case 4: return { "GENERATED ALWAYS AS (" + n + ")", "generation_clause{expression:$" + n + "}" }; case 5: return { "GENERATED ALWAYS AS IDENTITY", "identity_column{generation:always}" };
        case 6: return { "UNIQUE", "unique{constraint_kind:unique}" }; case 7: return { "PRIMARY KEY", "primary_key{constraint_kind:primary_key}" }; case 8: return { "REFERENCES " + n, "referential{target:" + n + "}" }; default: return { "REFERENCES " + n + " ON DELETE CASCADE", "referential{target:" + n + " on_delete:cascade}" }; }
}
piece named(piece const& body) { static constexpr variant n[] = { { "", "" }, { "CONSTRAINT y1 ", "name:y1 " }, { "CONSTRAINT z1.y1 ", "name:qualified{last:y1 qualifier:z1} " } }; auto& v = choose("constraint name", n); return { v.sql + body.sql, std::string { "{" } + v.tree + "body:" + body.tree + "}" }; }
piece table(piece const& elements) { return { "CREATE TABLE a1 (" + elements.sql + ")", "table_definition{name:a1" + (elements.tree.empty() ? "" : " elements:[" + elements.tree + "]") + "}" }; }
piece keys() {
    static constexpr variant k[] = { { "k1", "{key:$k1}" }, { "k1 ASC, l1", "{key:$k1 direction:asc} {key:$l1}" }, { "k1 DESC NULLS LAST", "{key:$k1 direction:desc null_location:last}" }, { "k1 COLLATE c1 NULLS FIRST, l1 + 1 DESC", "{key:$k1 collation:c1 null_location:first} {key:binary_expression{left:$l1 operator_kind:plus right:#1} direction:desc}" } };
    auto p = any("key", k); return { " (" + p.sql + ")", "[" + p.tree + "]" };
}
piece table_constraint(unsigned k) {
    switch (k) {
        case 0: { auto v = any_value('a', 8); return { "CHECK (" + v.sql + ")", "check{expression:" + v.tree + "}" }; }
        case 1: { auto s = keys(); auto i = any("include", includes); auto p = any("parameters", parameters); return { "UNIQUE" + s.sql + i.sql + p.sql, "unique{constraint_kind:unique key:" + s.tree + i.tree + p.tree + "}" }; }
        case 2: { auto s = keys(); auto i = any("include", includes); auto p = any("parameters", parameters); return { "PRIMARY KEY" + s.sql + i.sql + p.sql, "primary_key{constraint_kind:primary_key key:" + s.tree + i.tree + p.tree + "}" }; }
        default: { bool two = symx_choice("two", 2) != 0; auto r = references(); return { std::string { "FOREIGN KEY (f1" } + (two ? ", g1) " : ") ") + r.sql, std::string { "referential{columns:[f1" } + (two ? " g1]" : "]") + r.tree + "}" }; }
    }
}
}
SYMX_ENTRY(table_head) { auto t = opt("temporary", "TEMPORARY ", " temporary"); auto i = opt("if not exists", "IF NOT EXISTS ", " if_not_exists"); auto n = any_name('a', 4); auto p = any("parameters", parameters); auto e = opt("elements", "b1 INT", " elements:[column_definition{name:b1 type:integer{}}]"); auto o = i.tree + t.tree; expect({ "CREATE " + t.sql + "TABLE " + i.sql + n.sql + " (" + e.sql + ")" + p.sql, "table_definition{name:" + n.tree + e.tree + (o.empty() ? "" : " options:[" + o.substr(1) + "]") + p.tree + "}" }, m); }
SYMX_ENTRY(column_constraints) { auto c = named(column_constraint(symx_choice("constraint", constraint_forms), 'e')); expect(table({ "b1 INT " + c.sql, "column_definition{name:b1 type:integer{} constraints:[" + c.tree + "]}" }), m); }
SYMX_ENTRY(column_constraint_lists) { auto n = 2 + symx_choice("more", 2); piece c {}; for (unsigned i = 0; i < n; ++i) { auto f = few_constraint(symx_choice("constraint", n == 3 ? 6 : 10), static_cast<char>('e' + i)); if (i == 1) f = named(f); else f.tree = "{body:" + f.tree + "}"; c = c + piece { " " + f.sql, (i ? " " : "") + f.tree }; } expect(table({ "b1 INT" + c.sql, "column_definition{name:b1 type:integer{} constraints:[" + c.tree + "]}" }), m); }
SYMX_ENTRY(table_constraints) { auto c = named(table_constraint(symx_choice("constraint", 4))); expect(table({ c.sql, "constraint_definition" + c.tree }), m); }
SYMX_ENTRY(table_elements) {
    auto n = 1 + symx_choice("elements", 3);
    expect(table(list(n, [](unsigned i) { std::string c = letter(static_cast<char>('b' + i)); static constexpr variant l[] = { { "@ INT", "column_definition{name:@ type:integer{}}" }, { "@ CHAR(2) NOT NULL", "column_definition{name:@ type:character{length:2} constraints:[{body:not_null{}}]}" }, { "PRIMARY KEY (@)", "constraint_definition{body:primary_key{constraint_kind:primary_key key:[{key:$@}]}}" }, { "CONSTRAINT @ CHECK (n1)", "constraint_definition{name:@ body:check{expression:$n1}}" }, { "FOREIGN KEY (@) REFERENCES o1", "constraint_definition{body:referential{columns:[@] target:o1}}" } }; auto& v = choose("element", l); return piece { fill(v.sql, c), fill(v.tree, c) }; })), m);
}
SYMX_ENTRY(column_names) { auto t = any_type(); expect(table({ "b1 " + t.sql + ", \"c^c\" " + t.sql + " NULL", "column_definition{name:b1 type:" + t.tree + "} column_definition{name:\"c^c\" type:" + t.tree + " constraints:[{body:null{}}]}" }), m); }
// ---- indexes, views, schemas
SYMX_ENTRY(index) {
    auto u = opt("unique", "UNIQUE ", " unique"); auto i = opt("if not exists", "IF NOT EXISTS ", " if_not_exists"); auto n = symx_choice("named", 2) ? any_name('a', 3) : piece {}; auto t = any_name('b', 2); auto k = keys(); auto inc = any("include", includes); auto p = any("parameters", parameters); auto o = u.tree + i.tree;
    expect({ "CREATE " + u.sql + "INDEX " + i.sql + n.sql + " ON " + t.sql + k.sql + inc.sql + p.sql, brace("index_definition", (n.tree.empty() ? "" : "name:" + n.tree) + " table_name:" + t.tree + " keys:" + k.tree + inc.tree + (o.empty() ? "" : " options:[" + o.substr(1) + "]") + p.tree) }, m);
}
SYMX_ENTRY(index_where) { auto c = any_condition('w'); auto inc = any("include", includes); auto p = any("parameters", parameters); expect({ "CREATE INDEX a1 ON b1 (k1)" + inc.sql + p.sql + " WHERE " + c.sql, "index_definition{name:a1 table_name:b1 keys:[{key:$k1}]" + inc.tree + " predicate:" + c.tree + p.tree + "}" }, m); }
SYMX_ENTRY(view) {
    auto r = opt("replace", "OR REPLACE ", " or_replace"), t = opt("temporary", "TEMPORARY ", " temporary"), c = opt("recursive", "RECURSIVE ", " recursive"), i = opt("if not exists", "IF NOT EXISTS ", " if_not_exists"); auto n = any_name('a', 2); static constexpr variant columns[] = { { "", "" }, { " (b1)", " columns:[b1]" }, { " (b1, c1)", " columns:[b1 c1]" } }; auto l = any("columns", columns); auto p = any("parameters", parameters); auto q = any_query('d', 2); auto o = r.tree + t.tree + c.tree + i.tree;
    expect({ "CREATE " + r.sql + t.sql + c.sql + "VIEW " + i.sql + n.sql + l.sql + p.sql + " AS " + q.sql, "view_definition{name:" + n.tree + l.tree + " query:" + q.tree + (o.empty() ? "" : " options:[" + o.substr(1) + "]") + p.tree + "}" }, m);
}
SYMX_ENTRY(view_query) { auto q = any_query('d'); expect({ "CREATE VIEW a1 AS " + q.sql, "view_definition{name:a1 query:" + q.tree + "}" }, m); }
SYMX_ENTRY(schema) {
    auto i = opt("if not exists", "IF NOT EXISTS ", " options:[if_not_exists]"); auto n = symx_choice("named", 2) ? any_name('a', 3) : piece {}; static constexpr variant user[] = { { "", "" }, { " AUTHORIZATION u1", " user_name:u1" }, { " AUTHORIZATION \"u^u\"", " user_name:\"u^u\"" }, { " AUTHORIZATION CURRENT_ROLE", " user_name:current_role" }, { " AUTHORIZATION CURRENT_USER", " user_name:current_user" }, { " AUTHORIZATION SESSION_USER", " user_name:session_user" } }; auto u = any("user", user); auto k = symx_choice("elements", 3); std::string s {}, t {};
    static constexpr variant elements[] = { { " CREATE TABLE e1 ()", "table_definition{name:e1}" }, { " CREATE INDEX e1 ON f1 (g1)", "index_definition{name:e1 table_name:f1 keys:[{key:$g1}]}" }, { " CREATE VIEW e1 AS TABLE f1", "view_definition{name:e1 query:@f1}" }, { " CREATE SEQUENCE e1", "sequence_definition{name:e1}" } };
    for (unsigned j = 0; j < k; ++j) { auto& v = choose("element", elements); s += v.sql; if (j) t += ' '; t += v.tree; }
    expect({ "CREATE SCHEMA " + i.sql + n.sql + u.sql + s, brace("schema_definition", (n.tree.empty() ? "" : "name:" + n.tree) + u.tree + (k ? " elements:[" + t + "]" : "") + i.tree) }, m);
}
// ---- sequences and identity columns: options in any order, none twice
namespace {
struct slot { char const* tree; };
void sequence(unsigned n, bool identity) {
    static constexpr variant extra[] = { { "AS BIGINT", " type:big_integer{}" }, { "OWNED BY c1.d1", " owner:qualified{last:d1 qualifier:c1}" } };
    std::string s {}, t[7] {}; unsigned seen[7] {}; bool twice = false, cycle = false, no_cycle = false;
    for (unsigned i = 0; i < n; ++i) {
        auto k = symx_choice("option", identity ? 10 : 12); auto& v = k < 10 ? sequence_parts[k] : extra[k - 10]; auto at = k < 10 ? part_slots[k] : k - 5; s += " "; s += v.sql; if (seen[at]++) twice = true; t[at] = v.tree; if (k == 8) cycle = true; if (k == 9) no_cycle = true;
    }
    std::string sql = identity ? "CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY (" + s + "))" : "CREATE SEQUENCE a1" + s;
    auto o = run(expand(sql, true)); symx_assert(o.ok == !twice, "options of a sequence are accepted in any order, but none twice");
    if (twice) { symx_assert(o.ok || o.code == sql_parser_code::syntax_error, "a repeated option is a syntax error"); symx_reach("twice"); return; } if (!o.ok) return;
    std::string tree = identity ? "table_definition{name:a1 elements:[column_definition{name:b1 type:integer{} constraints:[{body:identity_column{generation:always" + t[0] + t[1] + t[2] + t[3] + t[4] + "}}]}]}" : "sequence_definition{name:a1" + t[5] + t[0] + t[1] + t[2] + t[3] + t[6] + (cycle ? " options:[cycle]" : no_cycle ? " options:[no_cycle]" : "") + "}";
    same(o.text, expand(tree, false), "a sequence has the options that were written"); symx_reach("done");
}
}
SYMX_ENTRY(sequence2) { sequence(symx_choice("options", 3), false); }
SYMX_ENTRY(sequence3) { sequence(3, false); }
SYMX_ENTRY(sequence4) { sequence(4, false); }
SYMX_ENTRY(identity2) { sequence(symx_choice("options", 3), true); }
SYMX_ENTRY(identity3) { sequence(3, true); }
SYMX_ENTRY(identity4) { sequence(4, true); }
SYMX_ENTRY(sequence_head) { auto t = opt("temporary", "TEMPORARY ", " temporary"); auto i = opt("if not exists", "IF NOT EXISTS ", " if_not_exists"); auto n = any_name('a', 4); static constexpr variant tail[] = { { "", "" }, { " CYCLE", " cycle" }, { " NO CYCLE", " no_cycle" } }; auto c = any("cycle", tail); auto o = t.tree + i.tree + c.tree; expect({ "CREATE " + t.sql + "SEQUENCE " + i.sql + n.sql + c.sql, "sequence_definition{name:" + n.tree + (o.empty() ? "" : " options:[" + o.substr(1) + "]") + "}" }, m); }
SYMX_ENTRY(sequence_values) { static constexpr variant k[] = { { "START WITH ", "initial_value:" }, { "START ", "initial_value:" }, { "INCREMENT BY ", "increment_value:" }, { "INCREMENT ", "increment_value:" }, { "MINVALUE ", "min_value:" }, { "MAXVALUE ", "max_value:" } }; auto& p = choose("option", k); auto v = any_value('v'); bool id = symx_choice("identity", 2) != 0; if (id) expect(table({ std::string { "b1 INT GENERATED BY DEFAULT AS IDENTITY (" } + p.sql + v.sql + ")", std::string { "column_definition{name:b1 type:integer{} constraints:[{body:identity_column{generation:by_default " } + p.tree + v.tree + "}}]}" }), m); else expect({ std::string { "CREATE SEQUENCE a1 " } + p.sql + v.sql, std::string { "sequence_definition{name:a1 " } + p.tree + v.tree + "}" }, m); }
// ---- ALTER, DROP
SYMX_ENTRY(drop) { static constexpr variant k[] = { { "TABLE", "drop_table_statement" }, { "INDEX", "drop_index_statement" }, { "VIEW", "drop_view_statement" }, { "SEQUENCE", "drop_sequence_statement" }, { "SCHEMA", "drop_schema_statement" } }; static constexpr variant b[] = { { "", "" }, { " CASCADE", " cascade" }, { " RESTRICT", " restrict" } }; auto& v = choose("kind", k); auto i = opt("if exists", "IF EXISTS ", " if_exists"); auto n = any_name('a', 4); auto c = any("behavior", b); auto o = i.tree + c.tree; expect({ std::string { "DROP " } + v.sql + " " + i.sql + n.sql + c.sql, std::string { v.tree } + "{name:" + n.tree + (o.empty() ? "" : " options:[" + o.substr(1) + "]") + "}" }, m); }
SYMX_ENTRY(alter) {
    auto i = opt("if exists", "IF EXISTS ", "if_exists:yes "); auto n = any_name('a', 4); auto r = symx_choice("quoted", 2) ? piece { "\"b^b\"", "\"b^b\"" } : piece { "b1", "b1" };
    switch (symx_choice("action", 3)) {
        case 0: expect({ "ALTER TABLE " + i.sql + n.sql + " RENAME TO " + r.sql, "alter_table_statement{" + i.tree + "name:" + n.tree + " action:rename_table{replacement:" + r.tree + "}}" }, m); break;
        case 1: expect({ "ALTER INDEX " + i.sql + n.sql + " RENAME TO " + r.sql, "alter_index_statement{" + i.tree + "name:" + n.tree + " action:rename_index{replacement:" + r.tree + "}}" }, m); break;
        default: { auto j = opt("column if exists", "IF EXISTS ", "if_exists:yes "); expect({ "ALTER TABLE " + i.sql + n.sql + " RENAME COLUMN " + j.sql + "c1 TO " + r.sql, "alter_table_statement{" + i.tree + "name:" + n.tree + " action:rename_column{" + j.tree + "column_name:c1 replacement:" + r.tree + "}}" }, m); }
    }
}
SYMX_ENTRY(definition_needs) {
    static char const* const l[] = { "CREATE a1", "CREATE TABLE", "CREATE TABLE a1", "CREATE TABLE a1 (", "CREATE TABLE a1 (b1)", "CREATE TABLE a1 (b1 INT,)", "CREATE TABLE a1 (, b1 INT)", "CREATE TABLE a1 (b1 INT c1 INT)", "CREATE TABLE IF EXISTS a1 ()", "CREATE TABLE IF NOT EXISTS ()", "CREATE UNIQUE TABLE a1 ()", "CREATE RECURSIVE TABLE a1 ()", "CREATE OR REPLACE TABLE a1 ()", "CREATE TEMPORARY TEMPORARY TABLE a1 ()", "CREATE TABLE a1 () WITH", "CREATE TABLE a1 () WITH (1)", "CREATE TABLE a1 () WITH (b1 =)", "CREATE TABLE a1 (b1 INT NOT)", "CREATE TABLE a1 (b1 INT CHECK c1)", "CREATE TABLE a1 (b1 INT CHECK ())", "CREATE TABLE a1 (b1 INT DEFAULT)", "CREATE TABLE a1 (b1 INT GENERATED AS IDENTITY)", "CREATE TABLE a1 (b1 INT GENERATED ALWAYS IDENTITY)", "CREATE TABLE a1 (b1 INT GENERATED BY DEFAULT AS (1))", "CREATE TABLE a1 (b1 INT PRIMARY)", "CREATE TABLE a1 (b1 INT KEY)", "CREATE TABLE a1 (b1 INT REFERENCES)", "CREATE TABLE a1 (b1 INT REFERENCES c1 ())", "CREATE TABLE a1 (b1 INT REFERENCES c1 ON INSERT CASCADE)", "CREATE TABLE a1 (b1 INT REFERENCES c1 ON UPDATE)", "CREATE TABLE a1 (b1 INT REFERENCES c1 ON UPDATE SET 1)", "CREATE TABLE a1 (b1 INT REFERENCES c1 ON UPDATE CASCADE ON UPDATE RESTRICT)", "CREATE TABLE a1 (b1 INT CONSTRAINT c1)", "CREATE TABLE a1 (CONSTRAINT c1)", "CREATE TABLE a1 (PRIMARY KEY)", "CREATE TABLE a1 (PRIMARY KEY ())", "CREATE TABLE a1 (UNIQUE (b1,))", "CREATE TABLE a1 (FOREIGN KEY (b1))", "CREATE TABLE a1 (FOREIGN KEY REFERENCES b1)", "CREATE TABLE a1 (FOREIGN KEY () REFERENCES b1)", "CREATE TABLE a1 (NOT NULL)", "CREATE INDEX a1 (b1)", "CREATE INDEX a1 ON b1", "CREATE INDEX a1 ON b1 ()", "CREATE INDEX a1 ON (b1)", "CREATE TEMPORARY INDEX a1 ON b1 (c1)", "CREATE INDEX a1 ON b1 (c1) WHERE", "CREATE INDEX a1 ON b1 (c1) WHERE d1 INCLUDE (e1)", "CREATE INDEX a1 ON b1 (c1) WITH (d1) INCLUDE (e1)", "CREATE VIEW a1", "CREATE VIEW a1 AS", "CREATE VIEW a1 () AS TABLE b1", "CREATE VIEW AS TABLE a1", "CREATE RECURSIVE TEMPORARY VIEW a1 AS TABLE b1", "CREATE TEMPORARY OR REPLACE VIEW a1 AS TABLE b1", "CREATE VIEW a1 AS INSERT INTO b1 DEFAULT VALUES", "CREATE SEQUENCE", "CREATE SEQUENCE a1 START", "CREATE SEQUENCE a1 INCREMENT BY", "CREATE SEQUENCE a1 MINVALUE", "CREATE SEQUENCE a1 NO", "CREATE SEQUENCE a1 OWNED c1", "CREATE SEQUENCE a1 (CYCLE)", "CREATE UNIQUE SEQUENCE a1", "CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY (AS INT))", "CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY (OWNED BY c1))", "CREATE TABLE a1 (b1 INT GENERATED ALWAYS AS IDENTITY (START 1, CYCLE))", "CREATE SCHEMA AUTHORIZATION", "CREATE SCHEMA a1 AUTHORIZATION b1.c1", "CREATE SCHEMA a1 b1", "CREATE SCHEMA a1 DROP TABLE b1", "CREATE SCHEMA a1 CREATE SCHEMA b1", "CREATE TEMPORARY SCHEMA a1", "CREATE SCHEMA a1 CREATE TABLE b1 (); CREATE", "ALTER TABLE a1", "ALTER a1 RENAME TO b1", "ALTER TABLE RENAME TO b1", "ALTER TABLE a1 RENAME b1", "ALTER TABLE a1 RENAME TO b1.c1", "ALTER TABLE a1 RENAME COLUMN b1", "ALTER TABLE a1 RENAME COLUMN b1.c1 TO d1", "ALTER TABLE IF NOT EXISTS a1 RENAME TO b1", "ALTER INDEX a1 RENAME COLUMN b1 TO c1", "ALTER VIEW a1 RENAME TO b1", "DROP a1", "DROP TABLE", "DROP TABLE IF NOT EXISTS a1", "DROP TABLE a1, b1", "DROP TABLE a1 CASCADE RESTRICT", "DROP TABLE CASCADE", "DROP TABLE a1 IF EXISTS", "DROP UNIQUE INDEX a1", "DROP SCHEMA" };
    reject(l[symx_choice("statement", sizeof(l) / sizeof(l[0]))], "a statement has exactly its parts"); symx_reach("done");
}
