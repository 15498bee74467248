// Any document at all: the parser ends with exactly one outcome, which is well formed, and
// what one parse does has no influence on another.
#include "corpus.h"
#include <takatori/document/basic_document.h>
using namespace h;
namespace {
/// the outcome of one parse is well formed
void outcome_of(sql_parser const& parser, std::string const& sql) {
    auto r = parser("where", sql);
    symx_assert(r.has_value() != r.has_diagnostic() && r.has_value() == static_cast<bool>(r), "a parse ends either with a tree or with a diagnostic");
    if (r.has_value()) {
        auto&& unit = *r.value(); bool ok = true;
        for (auto&& s : unit.statements()) ok &= s != nullptr;
        symx_assert(ok, "every statement of a compilation unit exists");
        std::size_t at = 0; ok = true;
        for (auto&& c : unit.comments()) { ok &= c.begin >= at && c.end > c.begin + 1 && c.end <= sql.size(); at = c.end; }
        symx_assert(ok, "the comments of a compilation unit are in the document, in order");
        symx_assert(unit.document() && unit.document()->location() == "where" && unit.document()->size() == sql.size(), "a compilation unit knows its document");
        if (r.value()) symx_assert(!tree(unit).empty(), "a compilation unit can be printed");
        symx_reach("accepted");
    } else {
        auto&& d = r.diagnostic(); auto c = d.code();
        symx_assert(c == sql_parser_code::syntax_error || c == sql_parser_code::invalid_character || c == sql_parser_code::invalid_token || c == sql_parser_code::unexpected_token || c == sql_parser_code::unexpected_eof, "a rejected document has a code that says why");
        symx_assert(!d.message().empty(), "a diagnostic has a message");
        auto g = d.region();
        bool inside = static_cast<bool>(g) && g.begin <= g.end && g.end <= sql.size();
        symx_assert(inside, "a diagnostic points into the document");
        symx_assert(d.document() && d.document()->location() == "where", "a diagnostic knows its document");
        if (inside) { auto t = d.contents(); symx_assert(t.size() == g.size(), "a diagnostic shows the text it points at"); if (t.size() == g.size()) symx_same(t.data(), sql.data() + g.begin, t.size(), "a diagnostic shows the text it points at"); }
        symx_assert(g.begin != g.end || (c == sql_parser_code::unexpected_eof && g.end == sql.size()), "only a diagnostic of the end of the document points at nothing");
        symx_reach("rejected");
    }
}
void outcome_of(std::string const& sql) { outcome_of(sql_parser {}, sql); symx_reach("done"); }
void any(unsigned n) { std::string s {}; for (unsigned i = 0; i < n; ++i) s += static_cast<char>(symx_byte("byte")); outcome_of(s); }
std::string statement(unsigned kind) { return plain(any_of(corpus[kind]).sql); }
void replaced(unsigned kind) { auto s = statement(kind); s[symx_choice("at", static_cast<unsigned>(s.size()))] = static_cast<char>(symx_byte("byte")); outcome_of(s); }
char const* const tokens_[] = { "a", "1", "1.5", "'a'", "\"a\"", "X'00'", ":a", "?", "(", ")", "[", "]", ",", ";", ".", ".*", "*", "+", "-", "=", "<", "::", "->", "SELECT", "FROM", "WHERE", "VALUES", "TABLE", "CREATE", "INSERT", "WITH", "AS", "UNION", "JOIN", "UNION JOIN", "OUTER APPLY", "NOT", "NULL", "CASE", "INTERVAL", "DATE", "INT", "ROW", "ORDER", "/**/", "__a", "\\", "/*" };
constexpr unsigned token_count = sizeof(tokens_) / sizeof(*tokens_);
void sequence(char const* prefix, unsigned n) { std::string s { prefix }; for (unsigned i = 0; i < n; ++i) { s += ' '; s += tokens_[symx_choice("token", token_count)]; } outcome_of(s); }
}
SYMX_ENTRY(any0) { any(0); }
SYMX_ENTRY(any1) { any(1); }
SYMX_ENTRY(any2) { any(2); }
SYMX_ENTRY(any3) { any(3); }
SYMX_ENTRY(any4) { any(4); }
// any byte at any place of a statement
SYMX_ENTRY(replaced_query) { replaced(0); }
SYMX_ENTRY(replaced_table) { replaced(1); }
SYMX_ENTRY(replaced_literal) { replaced(2); }
SYMX_ENTRY(replaced_type) { replaced(3); }
SYMX_ENTRY(replaced_function) { replaced(4); }
SYMX_ENTRY(replaced_dml) { replaced(5); }
SYMX_ENTRY(replaced_ddl) { replaced(6); }
SYMX_ENTRY(replaced_predicate) { replaced(7); }
// cut off at any place, begun at any place, a part left out
SYMX_ENTRY(cut) { auto s = statement(symx_choice("kind", corpus_kinds)); outcome_of(s.substr(0, symx_choice("at", static_cast<unsigned>(s.size())))); }
SYMX_ENTRY(begun) { auto s = statement(symx_choice("kind", corpus_kinds)); outcome_of(s.substr(symx_choice("at", static_cast<unsigned>(s.size())))); }
SYMX_ENTRY(left_out) { auto s = statement(symx_choice("kind", corpus_kinds)); auto a = symx_choice("at", static_cast<unsigned>(s.size())); outcome_of(s.substr(0, a) + s.substr(a + 1)); }
// any sequence of tokens
SYMX_ENTRY(tokens1) { sequence("", 1); }
SYMX_ENTRY(tokens2) { sequence("", 2); }
SYMX_ENTRY(tokens3) { sequence("", 3); }
SYMX_ENTRY(tokens_select) { sequence("SELECT a", 2); }
SYMX_ENTRY(tokens_from) { sequence("SELECT * FROM a", 2); }
SYMX_ENTRY(tokens_create) { sequence("CREATE TABLE a (b INT", 2); }
SYMX_ENTRY(tokens_insert) { sequence("INSERT INTO a", 2); }
SYMX_ENTRY(tokens_select3) { sequence("SELECT", 3); }

// ---- one parse has no influence on another
namespace {
std::string const other[] = { "SELECT 1", "SELECT", "/* a", "SELECT ?", "/** d */ CREATE TABLE t (/** e */ a INT)", "SELECT __a", "\\", "", "SELECT a.b, 'c'; INSERT INTO d DEFAULT VALUES" };
void equal(outcome const& a, outcome const& b) {
    symx_assert(a.ok == b.ok && a.code == b.code && a.region.begin == b.region.begin && a.region.end == b.region.end && a.statements == b.statements && a.nodes == b.nodes && a.depth == b.depth, "a parse does not depend on earlier parses");
    same(a.text, b.text, "a parse does not depend on earlier parses"); same(a.message, b.message, "a parse does not depend on earlier parses");
}
}
SYMX_ENTRY(independent) {
    auto t = expand(any_statement().sql, true); auto& o = other[symx_choice("other", 9)];
    sql_parser p {}, q {}; for (auto x : { &p, &q }) { x->options().tree_node_limit() = 100000; x->options().tree_depth_limit() = 100000; }
    auto first = run(p, t); run(p, o); auto again = run(p, t); auto fresh = run(q, t);
    equal(first, again); equal(first, fresh); symx_reach("done");
}
SYMX_ENTRY(independent_bytes) {
    std::string t {}, o {}; for (unsigned i = 0; i < 2; ++i) t += static_cast<char>(symx_byte("byte"));
    auto& b = other[symx_choice("other", 9)];
    sql_parser p {}; auto first = run(p, t); run(p, b); auto again = run(p, t); equal(first, again);
    auto x = run(b); run(p, t); equal(x, run(p, b)); symx_reach("done");
}
// a parser keeps the options it was made with; others are not touched; moving or copying keeps them
SYMX_ENTRY(parser_options) {
    sql_parser_options o {}; auto n = static_cast<std::size_t>(symx_bits("candidates", 64)); auto k = static_cast<std::size_t>(symx_bits("nodes", 64)); auto d = static_cast<std::size_t>(symx_bits("depth", 64)); auto e = static_cast<std::size_t>(symx_bits("statements", 64));
    o.max_expected_candidates() = n; o.tree_node_limit() = k; o.tree_depth_limit() = d; o.enable_description_comments() = symx_choice("descriptions", 2) != 0;
    o.element_limits()[mizugaki::parser::sql_parser_element_kind::statement] = e;
    bool c = o.enable_description_comments();
    sql_parser p { std::move(o) }, plain_ {}; plain_.options().element_limits()[mizugaki::parser::sql_parser_element_kind::statement] = 3;
    auto check = [&](sql_parser const& x) { auto& y = x.options(); symx_assert((y.max_expected_candidates() == n) & (y.tree_node_limit() == k) & (y.tree_depth_limit() == d) & (y.enable_description_comments() == c) & (y.element_limits()[mizugaki::parser::sql_parser_element_kind::statement] == e), "a parser keeps its options"); };
    check(p); if (symx_choice("run", 2)) { run(p, "SELECT 1; SELECT 2"); check(p); }
    sql_parser q { std::move(p) }; check(q);
    symx_assert(plain_.options().tree_node_limit() == 0 && plain_.options().max_expected_candidates() == 5, "other parsers keep theirs");
    symx_reach("done");
}
// a document object parses as its text does
SYMX_ENTRY(document) {
    auto t = expand(any_statement().sql, true);
    auto d = std::make_shared<takatori::document::basic_document const>("-", t);
    sql_parser p {}; auto r = p(takatori::util::maybe_shared_ptr<takatori::document::document const> { d }); auto o = run(t);
    symx_assert(r.has_value() && o.ok, "a document object is accepted like its text"); if (!r.has_value() || !o.ok) return;
    symx_assert(r.value()->document().get() == d.get(), "the compilation unit refers to the document it was made from");
    std::string u {}; for (auto&& s : r.value()->statements()) { if (!u.empty()) u += ';'; u += tree(*s); } same(u, o.text, "a document object parses as its text does"); symx_reach("done");
}
