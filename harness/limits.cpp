// Limits on the number of elements and on the size of the tree, each an arbitrary 64-bit number.
#include "corpus.h"
using namespace h;
using mizugaki::parser::sql_parser_element_kind;
namespace {
using K = sql_parser_element_kind;
/// a document with one list: before, element, separator, after
struct listed { K kind; char const* name; char const* before; char const* element; char const* separator; char const* after; int more; };
#define N(k) K::k, #k
constexpr listed lists[] = {
    { N(statement), "", "SELECT 5", ";", "" }, { N(statement), "", "DROP TABLE a1", " ; ", ";", 1 }, { N(statement), "", "", ";", ";", 1 },
    { N(schema_element_definition), "CREATE SCHEMA a1 ", "CREATE TABLE b1 (c1 INT)", " ", "" },
    { N(table_element_definition), "CREATE TABLE a1 (", "b1 INT", ", ", ")" },
    { N(table_element_definition), "CREATE TABLE a1 (", "UNIQUE (b1)", ",", ")" },
    { N(column_constraint_definition), "CREATE TABLE a1 (b1 INT ", "NOT NULL", " ", ")" },
    { N(column_reference), "INSERT INTO a1 (", "b1", ", ", ") DEFAULT VALUES" },
    { N(ordering_element), "CREATE TABLE a1 (PRIMARY KEY (", "b1", ", ", "))" }, { N(column_reference), "CREATE TABLE a1 (FOREIGN KEY (c1) REFERENCES d1 (", "b1", ", ", "))" }, { N(scalar_expression), "CREATE TABLE a1 (PRIMARY KEY (c1) INCLUDE (", "b1", ", ", "))" },
    { N(column_reference), "SELECT * FROM a1 JOIN b1 USING (", "c1", ",", ")" },
    { N(column_reference), "SELECT * FROM a1 AS b1 (", "c1", ",", ")" },
    { N(column_reference), "TABLE a1 UNION CORRESPONDING BY (", "c1", ",", ") TABLE b1" },
    { N(column_reference), "WITH a1 (", "b1", ", ", ") AS (TABLE c1) TABLE d1" },
    { N(storage_parameter), "CREATE TABLE a1 (b1 INT) WITH (", "c1", ", ", ")" },
    { N(storage_parameter), "CREATE INDEX a1 ON b1 (c1) WITH (", "c1 = 5", ", ", ")" },
    { N(set_clause), "UPDATE a1 SET ", "b1 = 5", ", ", " WHERE c1 = 5" },
    { N(with_element), "WITH ", "a1 AS (TABLE b1)", ", ", " TABLE c1" },
    { N(select_element), "SELECT ", "a1", ", ", "" }, { N(select_element), "SELECT DISTINCT ", "a1 AS b1", ",", " FROM c1" }, { N(select_element), "SELECT ", "*", ",", " FROM a1" },
    { N(table_reference), "SELECT * FROM ", "a1", ", ", "" }, { N(table_reference), "SELECT * FROM ", "(TABLE b1) AS a1", ", ", " WHERE c1 = 5" },
    { N(grouping_element), "SELECT a1 FROM b1 GROUP BY ", "c1", ", ", "" },
    { N(ordering_element), "SELECT a1 FROM b1 ORDER BY ", "c1", ", ", "" }, { N(ordering_element), "SELECT a1 FROM b1 ORDER BY ", "c1 DESC", ", ", " LIMIT 5" }, { N(ordering_element), "CREATE INDEX a1 ON b1 (", "c1 ASC", ", ", ")" },
    { N(field_definition), "SELECT CAST(a1 AS ROW (", "b1 INT", ", ", "))" },
    { N(row_expression), "VALUES ", "(a1)", ", ", "" }, { N(row_expression), "INSERT INTO b1 VALUES ", "(5)", ", ", "" },
    { N(scalar_expression), "SELECT f1(", "a1", ", ", ")" }, { N(scalar_expression), "VALUES (", "5", ", ", ")" }, { N(scalar_expression), "SELECT COALESCE(", "a1", ", ", ")" }, { N(scalar_expression), "SELECT ARRAY[", "a1", ", ", "]" },
    { N(scalar_expression), "SELECT ROW (", "a1", ", ", ")" },
    { N(when_clause), "SELECT CASE a1 ", "WHEN 5 THEN b1", " ", " END" }, { N(when_clause), "SELECT CASE ", "WHEN a1 = 5 THEN b1", " ", " ELSE c1 END" },
    { N(string_literal_concatenation), "SELECT ", "'a'", " ", "", -1 },
    { N(privilege_action), "GRANT ", "SELECT", ", ", " ON a1 TO b1" }, { N(privilege_action), "REVOKE ", "INSERT", ", ", " ON a1 FROM b1" },
    { N(privilege_object), "GRANT SELECT ON ", "a1", ", ", " TO b1" }, { N(privilege_object), "GRANT SELECT ON ", "TABLE a1", ", ", " TO b1" },
    { N(privilege_user), "GRANT SELECT ON a1 TO ", "b1", ", ", "" }, { N(privilege_user), "REVOKE SELECT ON a1 FROM ", "CURRENT_USER", ", ", "" },
};
#undef N
constexpr unsigned list_count = sizeof(lists) / sizeof(*lists);
std::string text(listed const& l, unsigned n) { std::string s { l.before }; for (unsigned i = 0; i < n; ++i) { if (i) s += l.separator; s += l.element; } return s + l.after; }
std::string number(std::size_t n) { std::string r {}; do { r.insert(r.begin(), static_cast<char>('0' + n % 10)); n /= 10; } while (n); return r; }
/// the refusal of a list with too many elements
void refused(outcome const& o, std::string const& sql, listed const& l, std::size_t limit) {
    symx_assert(!o.ok, "a list with more elements than its limit is refused"); if (o.ok) return;
    symx_assert(o.code == sql_parser_code::exceed_number_of_elements, "the refusal says that there are too many elements");
    same(o.message, std::string { "SQL parser has reached the max number of elements: " } + l.name + " must be less than or equal to " + number(limit), "the refusal names the kind of element and the limit");
    symx_assert(static_cast<bool>(o.region) && o.region.begin <= o.region.end && o.region.end <= sql.size(), "the refusal points into the document");
}
constexpr K at(unsigned i) { return static_cast<K>(static_cast<unsigned>(mizugaki::parser::sql_parser_element_kind_first) + i); }
constexpr unsigned kinds = static_cast<unsigned>(mizugaki::parser::sql_parser_element_kind_last) - static_cast<unsigned>(mizugaki::parser::sql_parser_element_kind_first) + 1;
}
// every list, every limit of its kind: exactly the longer lists are refused, and nothing else changes
SYMX_ENTRY(elements) {
    auto& l = lists[symx_choice("list", list_count)]; auto n = 1 + symx_choice("count", 4); auto sql = expand(text(l, n), true);
    auto limit = static_cast<std::size_t>(symx_bits("limit", 64)); sql_parser_options o {}; o.element_limits()[l.kind] = limit;
    auto free = run(sql); symx_assert(free.ok, "without limits every list is accepted");
    auto r = run(sql, std::move(o));
    if (auto m = static_cast<std::size_t>(static_cast<int>(n) + l.more); limit != 0 && limit < m) refused(r, sql, l, limit);
    else { symx_assert(r.ok, "a list within its limit is accepted"); if (r.ok) same(r.text, free.text, "a limit that is kept changes nothing"); }
    symx_reach("done");
}
// limits of the other kinds do not count: every other kind may have any limit from one on
SYMX_ENTRY(other_elements) {
    auto& l = lists[symx_choice("list", list_count)]; auto n = 2 + symx_choice("count", 2); auto sql = expand(text(l, n), true);
    auto limit = static_cast<std::size_t>(symx_bits("limit", 64)); symx_assume(limit >= 1); sql_parser_options o {};
    // two elements are lists of one value each
    bool nested = l.kind == K::row_expression;
    for (unsigned i = 0; i < kinds; ++i) if (at(i) != l.kind) o.element_limits()[at(i)] = limit;
    auto r = run(sql, std::move(o)); symx_assert(r.ok, "the limit of one kind of element does not apply to others"); (void) nested;
    symx_reach("done");
}
// a limit applies to each list on its own
SYMX_ENTRY(separate_lists) {
    static constexpr struct { K kind; char const* sql; unsigned longest; } l[] = {
        { K::select_element, "SELECT a, b FROM (SELECT c, d FROM e) f WHERE g IN (SELECT h FROM i)", 2 }, { K::scalar_expression, "SELECT f(1, 2), g(1, h(2, 3, 4)), i()", 3 }, { K::row_expression, "VALUES (1), (2); VALUES (3), (4)", 2 },
        { K::table_element_definition, "CREATE TABLE a (b INT, c INT); CREATE TABLE d (e INT, f INT, g INT)", 3 }, { K::column_constraint_definition, "CREATE TABLE a (b INT NOT NULL UNIQUE, c INT PRIMARY KEY DEFAULT 1)", 2 }, { K::when_clause, "SELECT CASE WHEN a = 1 THEN CASE b WHEN 1 THEN 2 WHEN 3 THEN 4 END WHEN c = 1 THEN 1 END", 2 },
        { K::table_reference, "SELECT * FROM a, (SELECT * FROM b, c) d", 2 }, { K::ordering_element, "(SELECT * FROM a ORDER BY b, c) UNION (SELECT * FROM d ORDER BY e, f, g)", 3 }, { K::with_element, "WITH a AS (WITH b AS (TABLE c), d AS (TABLE e) TABLE b) TABLE a", 2 }, { K::string_literal_concatenation, "SELECT 'a' 'b', 'c' 'd' 'e', 'f'", 2 },
        { K::set_clause, "UPDATE a SET b = 1, c = 2; UPDATE a SET b = 1, c = 2", 2 }, { K::column_reference, "CREATE TABLE a (UNIQUE (b, c), FOREIGN KEY (d, e) REFERENCES f (g, h))", 2 }, { K::privilege_user, "GRANT SELECT ON a TO b, c; GRANT SELECT ON a TO d, e", 2 } };
    auto& x = l[symx_choice("document", 13)]; auto limit = static_cast<std::size_t>(symx_bits("limit", 64)); sql_parser_options o {}; o.element_limits()[x.kind] = limit;
    auto r = run(x.sql, std::move(o)); bool ok = (limit == 0) | (limit >= x.longest);
    symx_assert(r.ok == ok, "a limit applies to each list on its own"); if (!r.ok) symx_assert(r.code == sql_parser_code::exceed_number_of_elements, "the refusal says that there are too many elements");
    symx_reach("done");
}

// ---- size of the tree
namespace {
/// counts the nodes of a printed tree and how deep they nest
class counter : public ::takatori::serializer::object_acceptor {
public:
    std::size_t nodes { 0 }, depth { 0 };
    void string(std::string_view) override {}
    void integer(std::int64_t) override {}
    void unsigned_integer(std::uint64_t) override {}
    void float_number(double) override {}
    void boolean(bool) override {}
    void pointer(void const*) override {}
    void struct_begin() override { is_.push_back(false); }
    void struct_end() override { if (is_.back()) --now_; is_.pop_back(); }
    void property_begin(std::string_view n) override { if (n == "node_kind" && !is_.back()) { is_.back() = true; ++nodes; if (++now_ > depth) depth = now_; } }
    void property_end() override {}
    void array_begin() override {}
    void array_end() override {}
private:
    std::vector<bool> is_ {}; std::size_t now_ { 0 };
};
struct size { std::size_t nodes { 0 }, depth { 0 }; };
size measure(std::string const& sql) {
    size s {}; auto r = sql_parser {}("-", sql); if (!r.has_value()) return s;
    for (auto&& x : r.value()->statements()) { counter c {}; c << *x; s.nodes += c.nodes; if (c.depth > s.depth) s.depth = c.depth; }
    return s;
}
outcome limited(std::string const& sql, std::size_t nodes, std::size_t depth) { sql_parser_options o {}; o.tree_node_limit() = nodes; o.tree_depth_limit() = depth; return run(sql, std::move(o)); }
void tree_limits(std::string const& sql) {
    auto n = static_cast<std::size_t>(symx_bits("node limit", 64)), d = static_cast<std::size_t>(symx_bits("depth limit", 64)); auto s = measure(sql);
    auto o = limited(sql, n, d); bool many = (n != 0) & (n < s.nodes), deep = (d != 0) & (d < s.depth);
    symx_assert(o.ok == !(many | deep), "exactly the trees with more nodes or levels than allowed are refused");
    if (o.ok) {
        if ((n | d) != 0) { symx_assert(o.nodes == s.nodes, "the result reports the number of nodes"); symx_assert(o.depth == s.depth, "the result reports the depth"); }
        else symx_assert((o.nodes == 0) & (o.depth == 0), "without limits nothing is counted");
        same(o.text, run(sql).text, "a limit that is kept changes nothing");
    } else {
        symx_assert(o.code == sql_parser_code::exceed_number_of_elements, "the refusal says that there are too many elements");
        symx_assert(static_cast<bool>(o.region) && o.region.begin <= o.region.end && o.region.end <= sql.size(), "the refusal points into the document");
        static constexpr std::string_view a = "exceeds the max number of elements in the SQL syntax tree: count=", b = "exceeds the max depth of the SQL syntax tree: depth=";
        std::string_view m { o.message }; bool x = m.substr(0, a.size()) == a, y = m.substr(0, b.size()) == b;
        symx_assert((x & many) | (y & deep), "the refusal says which limit was exceeded");
        std::size_t v = 0; for (auto i = x ? a.size() : b.size(); i < m.size() && m[i] != ','; ++i) v = v * 10 + static_cast<std::size_t>(m[i] - '0');
        if (x) symx_assert(v == n + 1, "the count is the first one beyond the limit");
        if (y) symx_assert(v > d && v <= s.depth, "the depth is one beyond the limit");
    }
    symx_reach("done");
}
void tree_limits(unsigned k) { tree_limits(plain(any_of(corpus[k]).sql)); }
}
SYMX_ENTRY(tree_query) { tree_limits(0); }
SYMX_ENTRY(tree_table) { tree_limits(1); }
SYMX_ENTRY(tree_literal) { tree_limits(2); }
SYMX_ENTRY(tree_type) { tree_limits(3); }
SYMX_ENTRY(tree_function) { tree_limits(4); }
SYMX_ENTRY(tree_dml) { tree_limits(5); }
SYMX_ENTRY(tree_ddl) { tree_limits(6); }
SYMX_ENTRY(tree_predicate) { tree_limits(7); }
// several statements are counted together, their depth is that of the deepest
SYMX_ENTRY(tree_statements) {
    auto a = plain(corpus[symx_choice("kind", corpus_kinds)].data[symx_choice("statement", 2)].sql), b = plain(corpus[2 + symx_choice("kind", 4)].data[0].sql);
    tree_limits(a + ";" + b + ";;");
}
// every element of a list counts
SYMX_ENTRY(tree_lists) { auto& l = lists[symx_choice("list", list_count)]; tree_limits(text(l, 1 + symx_choice("count", 3))); }
// growing expressions: exact counts
SYMX_ENTRY(tree_growth) {
    auto k = symx_choice("form", 4); auto n = symx_choice("count", 9); std::string s = "SELECT ";
    for (unsigned i = 0; i < n; ++i) s += k == 0 ? "- " : k == 1 ? "f(" : k == 2 ? "a+" : "NOT ";
    s += k == 0 ? "a" : "b = c"; if (k == 2) s = s.substr(0, s.size() - 5) + "a"; if (k == 1) s = s.substr(0, s.size() - 5) + "a";
    for (unsigned i = 0; i < n; ++i) if (k == 1) s += ')';
    tree_limits(s);
}
