// Clones and equality of trees. Needs SERIALIZE_REGION, with which the nodes print their regions.
#include "corpus.h"
#include "walk.h"
#include <mizugaki/ast/common/clone_wrapper.h>
#include <takatori/util/clonable.h>
using namespace h;
namespace {
using mizugaki::ast::compilation_unit; using mizugaki::ast::statement::statement; using takatori::util::clone_unique;
using unit = std::unique_ptr<compilation_unit>;
unit parse(std::string const& sql) { auto r = sql_parser {}("-", sql); return r.has_value() ? std::move(r.value()) : unit {}; }
/// prints a tree without its regions
class bare : public compact {
public:
    void integer(std::int64_t v) override { if (!skip_) compact::integer(v); }
    void unsigned_integer(std::uint64_t v) override { if (!skip_) compact::unsigned_integer(v); }
    void struct_begin() override { if (!skip_) compact::struct_begin(); }
    void struct_end() override { if (!skip_) compact::struct_end(); }
    void property_begin(std::string_view n) override { if (skip_ || n == "region") { ++skip_; return; } compact::property_begin(n); }
    void property_end() override { if (skip_) { --skip_; return; } compact::property_end(); }
private:
    unsigned skip_ { 0 };
};
template<class T> std::string contents(T const& n) { bare c {}; c << n; return c.out; }
/// whether two texts are equal, without deciding it
bool equal(std::string const& a, std::string const& b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
void compared(compilation_unit const& a, compilation_unit const& b, char const* msg) {
    bool e = a == b, f = b == a, n = a != b; symx_assert(e == f && e != n, "equality is symmetric, and inequality its opposite");
    std::string s {}, t {}; for (auto&& x : a.statements()) s += contents(*x) + ';'; for (auto&& x : b.statements()) t += contents(*x) + ';';
    symx_print(s.data(), s.size()); symx_print(t.data(), t.size());
    symx_assert(e == equal(s, t), msg);
}
constexpr char const* equality = "two trees are equal exactly if they have the same contents";
/// a tree and its clones
void cloned(std::string const& sql) {
    auto u = parse(sql); symx_assert(u != nullptr, "the statement is accepted"); if (!u) return;
    for (auto&& s : u->statements()) {
        auto before = tree(*s);
        auto c = clone_unique(*s);
        symx_assert(c.get() != s.get() && *c == *s && *s == *c && !(*c != *s), "a clone equals its origin");
        same(tree(*c), before, "a clone has the contents and regions of its origin"); same(tree(*s), before, "cloning does not change the origin");
        auto d = clone_unique(std::move(*c));
        symx_assert(*d == *s, "a tree that was moved equals its origin"); same(tree(*d), before, "a tree that was moved keeps its contents and regions");
        c.reset();
        s.reset(); same(tree(*d), before, "a clone does not depend on its origin");
        auto e = clone_unique(*d); d.reset(); same(tree(*e), before, "a clone does not depend on its origin");
    }
    symx_reach("done");
}
void cloned_of(unsigned k) { cloned(expand(any_of(corpus[k]).sql, true)); }
/// the same statement with other names
void renamed(unsigned k) {
    std::string t { any_of(corpus[k]).sql };
    auto a = parse(expand(t, false)); syms() = symbols {}; auto b = parse(expand(t, false));
    symx_assert(a && b, "the statement is accepted"); if (!a || !b) return;
    compared(*a, *b, equality); symx_reach("done");
}
/// the words and tokens of a plain statement
std::vector<std::string> split(std::string const& t) {
    std::vector<std::string> r {};
    for (std::size_t i = 0; i < t.size();) {
        if (t[i] == ' ' || t[i] == '\n') { ++i; continue; }
        std::size_t b = i;
        if (t[i] == '\'' || t[i] == '"') { char q = t[i++]; while (i < t.size() && t[i] != q) ++i; ++i; }
        else if (t[i] >= '0' && t[i] <= '9') { while (i < t.size() && (word(t[i]) || t[i] == '.' || ((t[i] == '-' || t[i] == '+') && t[i - 1] == 'e'))) ++i; }
        else if (word(t[i])) { while (i < t.size() && word(t[i])) ++i; if (i == b + 1 && i < t.size() && t[i] == '\'') { ++i; while (i < t.size() && t[i] != '\'') ++i; ++i; } }
        else { static constexpr std::string_view two[] = { "->", "::", "<>", "!=", ">=", "<=", "||", "<@", "@>", "&&", ".*" }; std::size_t n = 1; for (auto x : two) if (t.compare(i, 2, x) == 0) n = 2; i += n; }
        r.push_back(t.substr(b, i - b));
    }
    return r;
}
std::string joined(std::vector<std::string> const& l) {
    std::string r {}; char const* const apart = "<>=!|-+*/:.@&'";
    for (auto& s : l) { if (!r.empty() && ((word(r.back()) && (word(s[0]) || s[0] == '\'' || s[0] == '"')) || ((word(s[0]) || __builtin_strchr(apart, s[0])) && (r.back() == '\'' || r.back() == '"')) || (__builtin_strchr(apart, r.back()) && __builtin_strchr(apart, s[0])) || (r.back() >= '0' && r.back() <= '9' && s[0] == '.') || (r.back() == '.' && s[0] >= '0' && s[0] <= '9'))) r += ' '; r += s; }
    return r;
}
constexpr char const* others[] = { "z", "5", "NOT", "ALL", "DISTINCT", "DESC", "NULLS", "LAST", "+", "-", "*", "<", ">=", "OR", "LEFT", "OUTER", "EXCEPT", "INTERSECT", "NULL", "FALSE", "UNKNOWN", "'z'", "\"z\"", "X'ff'", "FLOAT", "CHAR", "TIMESTAMP", "DATE", "MAX", "LOWER", "ANY", "UNIQUE", "CASCADE", "DELETE", "SELECT", "PUBLIC", "IGNORE", "REPLACE", "VIEW", "INDEX", "SYMMETRIC", "YEAR", "MINUTE", "LEADING", "TRAILING", "SIMILAR", "EXISTS", "(", ")", ".", ",", "::", "->" };
constexpr unsigned other_count = sizeof(others) / sizeof(*others);
void edited(unsigned k, unsigned first, unsigned count) {
    auto t = plain(any_of(corpus[k]).sql); auto w = split(t); auto i = symx_choice("at", static_cast<unsigned>(w.size())); auto o = first + symx_choice("edit", count);
    if (o == other_count) w.erase(w.begin() + i); else if (o == other_count + 1) w.insert(w.begin() + i, w[i]); else if (o > other_count + 1) w.insert(w.begin() + i, others[o - other_count - 2]); else { if (w[i] == others[o]) return; w[i] = others[o]; }
    auto b = parse(joined(w)); if (!b) { symx_reach("not a statement"); return; }
    auto a = parse(t); symx_assert(a != nullptr, "the statement is accepted"); if (!a) return;
    compared(*a, *b, equality); symx_reach("done");
}
constexpr unsigned edits = other_count + 2 + other_count;
void pairs(unsigned k) {
    auto& l = corpus[k]; auto a = parse(plain(any_of(l).sql)); auto b = parse(plain(any_of(l).sql)); symx_assert(a && b, "the statement is accepted"); if (!a || !b) return;
    compared(*a, *b, equality); symx_reach("done");
}
}
#define ALL(name, f) SYMX_ENTRY(name##_query) { f(0); } SYMX_ENTRY(name##_table) { f(1); } SYMX_ENTRY(name##_literal) { f(2); } SYMX_ENTRY(name##_type) { f(3); } SYMX_ENTRY(name##_function) { f(4); } SYMX_ENTRY(name##_dml) { f(5); } SYMX_ENTRY(name##_ddl) { f(6); } SYMX_ENTRY(name##_predicate) { f(7); }
SYMX_ENTRY(clones) { cloned_of(symx_choice("kind", corpus_kinds)); }
SYMX_ENTRY(renames) { renamed(symx_choice("kind", corpus_kinds)); }
SYMX_ENTRY(any_pair) { pairs(symx_choice("kind", corpus_kinds)); }
static void left_out(unsigned k) { edited(k, other_count, 2); }
SYMX_ENTRY(words_left_out) { left_out(symx_choice("kind", corpus_kinds)); }
static void replaced(unsigned k) { edited(k, 0, other_count); }
static void inserted(unsigned k) { edited(k, other_count + 2, other_count); }
ALL(replaced, replaced)
ALL(inserted, inserted)
// layout is not part of the contents
SYMX_ENTRY(layout) { auto& t = any_statement(); auto a = parse(plain(t.sql)), b = parse(" /**/\n" + joined(split(plain(t.sql)))); symx_assert(a && b, "the statement is accepted"); if (a && b) compared(*a, *b, equality); symx_reach("done"); }
// whole documents, of any length and order
SYMX_ENTRY(units) {
    static char const* const l[] = { "TABLE a1", "SELECT b1", "DROP TABLE c1", "", "INSERT INTO a1 DEFAULT VALUES" };
    auto text = [&] { std::string r {}; for (unsigned n = symx_choice("count", 4); n; --n) r += std::string { l[symx_choice("statement", 5)] } + ";"; return r; };
    auto x = text(), y = text(); auto a = parse(expand(x, false)); syms() = symbols {}; auto b = parse(expand(y, false));
    symx_assert(a && b, "the statements are accepted"); if (!a || !b) return;
    compared(*a, *b, equality);
    compilation_unit c { takatori::util::clone_tag, *a }; symx_assert(c == *a, "a clone equals its origin"); same(tree(c), tree(*a), "a clone has the contents of its origin");
    symx_assert(c.document().get() == a->document().get(), "a clone refers to the document of its origin");
    auto before = tree(c); compilation_unit d { takatori::util::clone_tag, std::move(c) }; same(tree(d), before, "a document that was moved keeps its contents"); symx_reach("done");
}
// clone_wrapper: copies are deep, assignments too, moves keep the element
SYMX_ENTRY(wrappers) {
    using one = mizugaki::ast::common::clone_wrapper<std::unique_ptr<statement>>; using many = mizugaki::ast::common::clone_wrapper<std::vector<std::unique_ptr<statement>>>;
    auto u = parse(expand("SELECT a1; TABLE b1; DROP TABLE c1", true)); symx_assert(u != nullptr, "the statement is accepted"); if (!u) return;
    auto& l = u->statements(); auto a = tree(*l[0]), b = tree(*l[1]), c = tree(*l[2]);
    if (symx_choice("many", 2) == 0) {
        one x { std::move(l[0]) }, y { std::move(l[1]) }, e {};
        one z { x }; symx_assert((*z).get() != (*x).get() && **z == **x, "a copy is a clone");
        y = x; symx_assert((*y).get() != (*x).get(), "an assigned copy is a clone"); same(tree(**y), a, "an assigned copy has the element's contents");
        one m { std::move(x) }; same(tree(**m), a, "a moved element keeps its contents"); z = std::move(y); same(tree(**z), a, "a moved element keeps its contents");
        z = e; symx_assert(*z == nullptr, "a copy of nothing is nothing"); same(tree(**m), a, "copies do not depend on each other");
    } else {
        many x { std::move(l) }, y {}, e {};
        auto check = [&](many& w, char const* msg) { symx_assert((*w).size() == 3, msg); if ((*w).size() != 3) return; same(tree(*(*w)[0]), a, msg); same(tree(*(*w)[1]), b, msg); same(tree(*(*w)[2]), c, msg); };
        many z { x }; check(z, "a copy has clones of all elements"); symx_assert((*z)[0].get() != (*x)[0].get(), "a copy is a clone");
        auto& r = (y = x); symx_assert(std::addressof(r) == std::addressof(y), "an assignment returns its target"); check(y, "an assigned copy has clones of all elements"); check(x, "copying does not change the origin");
        many m { std::move(x) }; check(m, "moved elements keep their contents"); z = std::move(y); check(z, "moved elements keep their contents");
        z = e; symx_assert((*z).empty(), "a copy of nothing is nothing"); check(m, "copies do not depend on each other");
    }
    symx_reach("done");
}
// every node and element equals itself and nothing else's kind
namespace {
struct own {
    unsigned count { 0 };
    template<class T> void operator()(T const& n) { ++count; symx_assert(n == n && !(n != n), "a node equals itself"); }
    template<class T> void base(T const& n) { symx_assert(n == n && !(n != n), "a node equals itself"); }
};
}
SYMX_ENTRY(itself) {
    auto u = parse(expand(any_statement().sql, true)); symx_assert(u != nullptr, "the statement is accepted"); if (!u) return;
    own f {}; for (auto& s : u->statements()) walk(s, f); symx_assert(f.count > 0, "a statement has nodes"); symx_assert(*u == *u, "a document equals itself"); symx_reach("done");
}
// nodes of different classes or kinds, with the same values as far as possible
namespace {
/// every node of a document by family
struct families {
    template<class T> using list = std::vector<T const*>;
    list<ma::name::name> names {}; list<ma::literal::literal> literals {}; list<ma::type::type> types {}; list<ma::scalar::expression> scalars {}; list<ma::query::expression> queries {}; list<ma::query::select_element> selects {};
    list<ma::table::expression> tables {}; list<ma::table::join_specification> joins {}; list<ma::statement::statement> statements {}; list<ma::statement::table_element> elements {}; list<ma::statement::constraint> constraints {}; list<ma::statement::alter_table_action> actions {};
    template<class T> void operator()(T const&) {}
    void base(ma::name::name const& n) { names.push_back(&n); } void base(ma::literal::literal const& n) { literals.push_back(&n); } void base(ma::type::type const& n) { types.push_back(&n); } void base(ma::scalar::expression const& n) { scalars.push_back(&n); }
    void base(ma::query::expression const& n) { queries.push_back(&n); } void base(ma::query::select_element const& n) { selects.push_back(&n); } void base(ma::table::expression const& n) { tables.push_back(&n); } void base(ma::table::join_specification const& n) { joins.push_back(&n); }
    void base(ma::statement::statement const& n) { statements.push_back(&n); } void base(ma::statement::table_element const& n) { elements.push_back(&n); } void base(ma::statement::constraint const& n) { constraints.push_back(&n); } void base(ma::statement::alter_table_action const& n) { actions.push_back(&n); }
    template<class T> void base(T const&) {}
};
template<class T> void unlike(std::vector<T const*> const& l) {
    std::vector<std::string> t {}; for (auto* n : l) t.push_back(contents(*n));
    for (std::size_t i = 0; i < l.size(); ++i) for (std::size_t j = 0; j <= i; ++j) {
        bool e = *l[i] == *l[j], f = *l[j] == *l[i], d = *l[i] != *l[j]; symx_print(t[i].data(), t[i].size()); symx_print(t[j].data(), t[j].size());
        symx_assert(e == f && e != d, "equality is symmetric, and inequality its opposite"); symx_assert(e == equal(t[i], t[j]), "two nodes are equal exactly if they have the same kind and contents");
    }
}
constexpr char const* twins[] = {
    "SELECT '5', X'5', 5, 5.0, 5e0, -5, DATE '5', TIME '5', TIME WITH TIME ZONE '5', TIMESTAMP '5', TIMESTAMP WITH TIME ZONE '5', INTERVAL '5', INTERVAL -'5', INTERVAL +'5', '5' '5', '5' '6', X'5' '5', TRUE, FALSE, UNKNOWN, NULL, DEFAULT, '~a', X'~a'",
    "SELECT CAST(a1 AS CHAR(5)), CAST(a1 AS VARCHAR(5)), CAST(a1 AS BINARY(5)), CAST(a1 AS VARBINARY(5)), CAST(a1 AS DECIMAL(5)), CAST(a1 AS NUMERIC(5)), CAST(a1 AS DECIMAL(5, 0)), CAST(a1 AS DECIMAL(5, 2)), CAST(a1 AS DECIMAL(*)), CAST(a1 AS DECIMAL(*, 5)), CAST(a1 AS FLOAT(5)), CAST(a1 AS INT(4)), CAST(a1 AS INT(8)), CAST(a1 AS INT), CAST(a1 AS BIGINT), CAST(a1 AS REAL), CAST(a1 AS DOUBLE PRECISION), CAST(a1 AS BOOLEAN), CAST(a1 AS DATE), CAST(a1 AS TIME), CAST(a1 AS TIME WITH TIME ZONE), CAST(a1 AS TIMESTAMP), CAST(a1 AS TIMESTAMP WITH TIME ZONE), CAST(a1 AS CHAR), CAST(a1 AS VARCHAR(*)), CAST(a1 AS INT ARRAY[5]), CAST(a1 AS INT ARRAY[*]), CAST(a1 AS ROW(b1 INT)), CAST(a1 AS b1), CAST(a1 AS b1.c1), CAST(a1 AS BLOB), CAST(a1 AS CLOB)",
    "SELECT a1, a1.b1, f1.a1.b1, a1 -> b1, a1.b1(), f1(a1), f1(b1), ABS(a1), MAX(a1), MIN(a1), COUNT(a1), COUNT(DISTINCT a1), COUNT(*), LOWER(a1), COALESCE(a1), (a1, b1), ROW(a1, b1), ARRAY[a1, b1], a1[b1], +a1, -a1, NOT a1, a1 + b1, a1 - b1, b1 + a1, a1 = b1, a1 < b1, a1 <> b1, a1 != b1, a1 AND b1, a1 OR b1, a1 IS NULL, a1 IS NOT NULL, a1 || b1, CASE a1 WHEN b1 THEN c1 END, CASE WHEN a1 THEN c1 END, CASE WHEN a1 THEN c1 ELSE b1 END, CAST(a1 AS b1), TREAT(a1 AS b1), TRIM(a1), TRIM(LEADING FROM a1), TRIM(LEADING b1 FROM a1), EXTRACT(YEAR FROM a1), EXTRACT(MONTH FROM a1), :a1, ?, (TABLE a1), NEW a1(), NEW a1(b1), a1::b1()",
    "SELECT a1 LIKE b1, a1 NOT LIKE b1, a1 LIKE b1 ESCAPE c1, a1 SIMILAR TO b1, a1 BETWEEN b1 AND c1, a1 NOT BETWEEN b1 AND c1, a1 BETWEEN SYMMETRIC b1 AND c1, a1 IN (b1), a1 NOT IN (b1), a1 = ANY (TABLE b1), a1 = ALL (TABLE b1), a1 = SOME (TABLE b1), EXISTS (TABLE a1), UNIQUE (TABLE a1), a1 OVERLAPS b1",
    "SELECT * FROM a1, a1 AS b1, a1 AS b1 (c1), ONLY (a1), (TABLE a1) AS b1, LATERAL (TABLE a1) AS b1, UNNEST(a1) AS b1, UNNEST(a1) WITH ORDINALITY AS b1, a1 JOIN b1 ON c1, a1 LEFT JOIN b1 ON c1, a1 JOIN b1 USING (c1), a1 CROSS JOIN b1, a1 NATURAL JOIN b1, a1 CROSS APPLY f1(b1) AS c1, a1 OUTER APPLY f1(b1) AS c1",
    "TABLE a1; SELECT * FROM a1; SELECT a1; SELECT DISTINCT a1; SELECT a1.*; SELECT a1 AS b1; VALUES (a1); VALUES (a1), (b1); TABLE a1 UNION TABLE b1; TABLE a1 UNION ALL TABLE b1; TABLE a1 EXCEPT TABLE b1; TABLE a1 INTERSECT TABLE b1; TABLE a1 UNION CORRESPONDING TABLE b1; WITH a1 AS (TABLE b1) TABLE c1; WITH RECURSIVE a1 AS (TABLE b1) TABLE c1; DROP TABLE a1; DROP VIEW a1; DROP INDEX a1; DROP SCHEMA a1; DROP SEQUENCE a1; DELETE FROM a1; TRUNCATE TABLE a1; INSERT INTO a1 DEFAULT VALUES; INSERT INTO a1 VALUES (b1); INSERT INTO a1 TABLE b1; UPDATE a1 SET b1 = c1; GRANT SELECT ON a1 TO b1; REVOKE SELECT ON a1 FROM b1; CREATE SCHEMA a1; CREATE SEQUENCE a1; CREATE INDEX a1 ON b1 (c1); CREATE VIEW a1 AS TABLE b1; CREATE TABLE a1 (b1 INT); ALTER TABLE a1 RENAME TO b1; ALTER INDEX a1 RENAME TO b1",
    "CREATE TABLE a1 (b1 INT NULL NOT NULL UNIQUE PRIMARY KEY CHECK (c1) DEFAULT c1 GENERATED ALWAYS AS (c1) GENERATED ALWAYS AS IDENTITY GENERATED BY DEFAULT AS IDENTITY REFERENCES d1 (c1), UNIQUE (c1), PRIMARY KEY (c1), CHECK (c1), FOREIGN KEY (c1) REFERENCES d1 (c1), CONSTRAINT e1 UNIQUE (c1), b1 INT, b1 CHAR); ALTER TABLE a1 RENAME TO b1; ALTER TABLE a1 RENAME COLUMN b1 TO c1; ALTER TABLE a1 RENAME COLUMN IF EXISTS b1 TO c1" };
}
SYMX_ENTRY(twins_differ) {
    auto u = parse(expand(twins[symx_choice("list", sizeof(twins) / sizeof(*twins))], true)); symx_assert(u != nullptr, "the statement is accepted"); if (!u) return;
    families f {}; for (auto& s : u->statements()) walk(s, f);
    unlike(f.names); unlike(f.literals); unlike(f.types); unlike(f.scalars); unlike(f.queries); unlike(f.selects); unlike(f.tables); unlike(f.joins); unlike(f.statements); unlike(f.elements); unlike(f.constraints); unlike(f.actions); symx_reach("done");
}
