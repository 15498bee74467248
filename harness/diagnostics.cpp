// What a diagnostic says: characters that do not belong to SQL, unexpected tokens, and the
// tokens that would have been expected.
#include "corpus.h"
#include "lexer.h"
using namespace h;
namespace {
/// the gaps of a template: places of blanks that separate tokens
std::vector<std::size_t> gaps(std::string const& t) {
    std::vector<std::size_t> r {}; char quote = 0;
    auto phrase = [&](std::size_t i, std::string_view l, std::string_view n) { return i >= l.size() && std::string_view { t }.substr(i - l.size(), l.size()) == l && std::string_view { t }.substr(i + 1, n.size()) == n; };
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (quote) { if (t[i] == quote) quote = 0; continue; }
        if (t[i] == '\'' || t[i] == '"') { quote = t[i]; continue; }
        if (t[i] == ' ' && !phrase(i, "UNION", "JOIN") && !phrase(i, "OUTER", "APPLY") && !phrase(i, ".", "*")) r.push_back(i);
    }
    return r;
}
/// the beginning of a statement, up to a gap
std::string beginning(unsigned k, unsigned step = 1) {
    auto& l = corpus[k]; auto& v = l.data[step * symx_choice("statement", static_cast<unsigned>((l.size + step - 1) / step))];
    auto g = gaps(v.sql); g.push_back(__builtin_strlen(v.sql)); auto n = symx_choice("gap", static_cast<unsigned>(g.size() + 1));
    return n == g.size() ? std::string {} : std::string { v.sql }.substr(0, g[n]);
}
// ---- characters that do not belong to SQL
struct bad { std::string text; bool control; };
bool tail(unsigned char c) { return (c & 0xc0U) == 0x80U; }
bad character(unsigned form) {
    std::string s {}; auto add = [&](char const* n) { auto c = symx_byte(n); s += static_cast<char>(c); return c; };
    switch (form) {
        case 0: { auto c = add("control"); symx_assume((c < 9) | ((c > 13) & (c < 32))); return { s, true }; }
        case 1: { auto c = add("byte"); symx_assume((c == 0x7f) | (c == '#') | (c == '$') | (c == '\\') | (c == '`') | (c == '~') | (c == '!') | (c == '@')); return { s, false }; }
        case 2: { auto c = add("byte"); symx_assume(((c >= 0x80) & (c < 0xc2)) | (c > 0xf4)); return { s, false }; }
        case 3: { auto a = add("lead"), b = add("tail"); symx_assume((a >= 0xc2) & (a <= 0xdf) & tail(b)); return { s, false }; }
        case 4: { auto a = add("lead"), b = add("tail"), c = add("tail"); symx_assume((a >= 0xe0) & (a <= 0xef) & tail(b) & tail(c)); return { s, false }; }
        case 5: { auto a = add("lead"), b = add("tail"), c = add("tail"), d = add("tail"); symx_assume((a >= 0xf0) & (a <= 0xf4) & tail(b) & tail(c) & tail(d)); return { s, false }; }
        default: { auto a = add("lead"); symx_assume((a >= 0xc2) & (a <= 0xf4)); return { s, false }; } // an unfinished character: only its first byte is meant
    }
}
constexpr unsigned forms = 7;
void bad_character(std::string const& before, bad const& b, std::string const& after) {
    auto o = run(before + b.text + after);
    symx_assert(!o.ok, "a character that does not belong to SQL is refused"); if (o.ok) return;
    symx_assert(o.code == sql_parser_code::invalid_character, "the refusal says that the character is not valid");
    symx_assert(o.region.begin == before.size() && o.region.end == before.size() + b.text.size(), "the refusal marks exactly the character");
    std::string m {};
    if (b.control) { auto c = static_cast<unsigned char>(b.text[0]); auto lo = static_cast<unsigned char>(c & 15U); m = "unrecognized control character: U+00"; m += static_cast<char>('0' + (c >> 4)); m += static_cast<char>(lo + (lo < 10 ? '0' : 'A' - 10)); }
    else m = "unrecognized character: \"" + b.text + "\"";
    same(o.message, m, "the refusal names the character"); symx_reach("done");
}
}
SYMX_ENTRY(character_places) { auto p = expand(beginning(symx_choice("kind", corpus_kinds), 3), true); auto b = character(symx_choice("form", 3) + 1); bad_character(p + " ", b, " 1"); }
SYMX_ENTRY(character_forms) {
    static char const* const l[] = { "", " ", "SELECT ", "SELECT a", "SELECT 'a'", "/* ~ */", "SELECT 1;", "SELECT a.", "CREATE TABLE t (", "INSERT INTO t VALUES (1, " };
    static char const* const r[] = { "", " ", "a", "'", "\"", "1", "/**/", "\n", "\\", "\x01" };
    auto n = symx_choice("after", 10); auto f = symx_choice("form", forms); auto b = character(f); std::string a = r[n];
    if (f == 1) symx_assume(!(a.empty() ? false : a[0] == '=' || a[0] == '>'));
    bad_character(l[symx_choice("before", 10)], b, a);
}
// an unclosed block comment anywhere
SYMX_ENTRY(unclosed_comment) {
    auto few = symx_choice("few", 2); auto p = few ? std::string { "SELECT 1, " } : expand(beginning(symx_choice("kind", corpus_kinds), 2), true) + " "; std::string c {};
    auto n = few ? symx_choice("size", 5) : 1; bool closed = false; unsigned char last = 0;
    for (unsigned i = 0; i < n; ++i) { auto b = symx_byte("byte"); closed = closed | ((last == '*') & (b == '/')); last = b; c += static_cast<char>(b); }
    symx_assume(!closed);
    auto o = run(p + "/*" + c);
    symx_assert(!o.ok && o.code == sql_parser_code::unexpected_eof, "an unclosed comment is refused as an unexpected end"); if (o.ok) return;
    symx_assert(o.region.begin == p.size() && o.region.end == p.size() + 2, "the refusal marks the comment's opening"); same(o.message, "block comment (/* ~ */) is not closed", "the refusal says what is not closed"); symx_reach("done");
}
// ---- unexpected tokens
namespace {
sql_parser_options candidates(std::size_t n) { sql_parser_options o {}; o.max_expected_candidates() = n; return o; }
std::string const never = "END-EXEC";
/// the tokens expected after a beginning, from the diagnostic for a token that is never expected
std::vector<std::string> expected(std::string const& p, std::string& message) {
    auto o = run(p + " " + never, candidates(1000)); message = o.message;
    symx_assert(!o.ok && o.code == sql_parser_code::unexpected_token, "a token that fits nowhere is refused as unexpected");
    symx_assert(o.region.begin == p.size() + 1 && o.region.end == p.size() + 1 + never.size(), "the refusal marks exactly the token");
    std::string head = "appeared unexpected token: \"" + never + "\", expected one of {"; std::vector<std::string> r {};
    symx_assert(o.message.size() > head.size() && o.message.substr(0, head.size()) == head && o.message.back() == '}', "the refusal shows the token and what was expected");
    if (o.message.size() <= head.size()) return r;
    std::string x {}; auto body = o.message.substr(head.size(), o.message.size() - head.size() - 1);
    for (std::size_t i = 0; i < body.size(); ++i) { if (body[i] == ',' && i + 1 < body.size() && body[i + 1] == ' ') { if (x.empty()) { x = ","; continue; } r.push_back(x); x.clear(); ++i; } else x += body[i]; }
    if (!x.empty()) r.push_back(x);
    return r;
}
bool has(std::vector<std::string> const& l, std::string_view s) { for (auto& x : l) if (x == s) return true; return false; }
struct sample { char const* text; char const* name; };
constexpr sample other[] = { { "a", "<identifier>" }, { "\"a\"", "<identifier>" }, { "1", "<unsigned-integer>" }, { "1.5", "<exact-numeric-literal>" }, { "1e5", "<approximate-numeric-literal>" }, { "'a'", "<character-string-literal>" }, { "X'00'", "<hex-string-literal>" }, { ":a", "<host-parameter-name>" },
    { "UNION JOIN", "UNION JOIN" }, { "OUTER APPLY", "OUTER APPLY" }, { ".*", ". *" }, { "%", "%" }, { "&", "&" }, { "(", "(" }, { ")", ")" }, { "*", "*" }, { "+", "+" }, { ",", "," }, { "-", "-" }, { ".", "." }, { "/", "/" }, { ":", ":" }, { ";", ";" }, { "<", "<" }, { "=", "=" }, { ">", ">" }, { "?", "?" }, { "[", "[" }, { "]", "]" }, { "^", "^" }, { "_", "_" }, { "|", "|" }, { "{", "{" }, { "}", "}" },
    { "<>", "<>" }, { "!=", "!=" }, { ">=", ">=" }, { "<=", "<=" }, { "||", "||" }, { "->", "->" }, { "::", "::" }, { "<@", "<@" }, { "@>", "@>" }, { "&&", "&&" } };
constexpr unsigned other_count = sizeof(other) / sizeof(*other);
constexpr std::string_view contextual[] = { "ASC", "CONTINUE", "DESC", "KEY", "IGNORE", "SCHEMA", "SEQUENCE", "RESTART", "RESTRICT", "RENAME", "FIRST", "LAST", "ORDINALITY", "VALUE" };
/// whether a token can follow a beginning: it is not the one that is refused
bool follows(std::string const& p, std::string const& t) {
    std::string d = p + "/**/ " + t + "/**/ " + never; auto o = run(d, candidates(0));
    symx_assert(!o.ok, "a token that fits nowhere is refused"); if (o.ok) return true;
    bool here = o.region.begin == p.size() + 5;
    if (here && o.code == sql_parser_code::unexpected_token) { symx_assert(o.region.end == p.size() + 5 + t.size(), "the refusal marks exactly the token"); same(o.message, "appeared unexpected token: \"" + t + "\"", "the refusal shows the token as written"); return false; }
    return true;
}
void exactly(std::string const& p) {
    std::string m {}; auto e = expected(p, m);
    bool id = has(e, "<identifier>"), unique = true, known = true;
    for (std::size_t i = 0; i < e.size(); ++i) {
        for (std::size_t j = 0; j < i; ++j) unique &= e[i] != e[j];
        bool f = e[i] == "<END_OF_FILE>"; for (auto& s : other) f = f || e[i] == s.name; for (auto& w : words) f = f || e[i] == std::string_view { w.text, w.size };
        if (!f) symx_print(e[i].data(), e[i].size());
        known &= f;
    }
    symx_assert(unique, "every expected token is listed once"); symx_assert(known, "every expected token is one of the language");
    symx_assert(!id || e[0] == "<identifier>", "an expected name is listed first");
    bool complete = true, sound = true; std::string bad {};
    auto check = [&](std::string const& t, std::string_view n, bool f, bool listed) { if (f == listed) return; (f ? complete : sound) = false; bad += t; bad += ' '; };
    for (auto& s : other) check(s.text, s.name, follows(p, s.text), has(e, s.name));
    for (auto& w : words) {
        std::string t { w.text, w.size }; if (t == never) continue;
        bool f = follows(p, t), c = false; for (auto x : contextual) c = c || x == t;
        check(t, t, f, has(e, t) || (c && id)); if (c && id && has(e, t)) unique = false;
    }
    { auto o = run(p, candidates(0)); bool end = o.ok || o.code != sql_parser_code::unexpected_eof; if (end != has(e, "<END_OF_FILE>")) { (end ? complete : sound) = false; bad += "END"; } }
    symx_print(bad.data(), bad.size());
    symx_assert(complete, "every token that can follow is listed as expected"); symx_assert(sound, "every listed token can follow"); symx_assert(unique, "words that are names too are not listed besides names");
    symx_reach("done");
}
}
namespace {
void exactly(unsigned k, unsigned step) { exactly(expand(beginning(k, step), true)); }
constexpr char const* states[] = { "", "SELECT", "SELECT a1", "SELECT a1.b1", "SELECT a1 AS", "SELECT *", "SELECT 5", "SELECT 'x'", "SELECT - ", "SELECT (", "SELECT (a1", "SELECT CASE", "SELECT CAST(a1 AS", "SELECT f1(", "SELECT COUNT(DISTINCT", "SELECT a1 FROM", "SELECT a1 FROM b1", "SELECT a1 FROM b1 c1", "SELECT a1 FROM b1 CROSS", "SELECT a1 FROM b1 JOIN c1", "SELECT a1 FROM b1 WHERE", "SELECT a1 FROM b1 WHERE c1", "SELECT a1 FROM b1 WHERE c1 IS", "SELECT a1 FROM b1 WHERE c1 =", "SELECT a1 FROM b1 ORDER BY c1", "VALUES", "VALUES (5)", "WITH a1", "TABLE a1", "INSERT", "INSERT INTO a1", "UPDATE a1 SET b1", "DELETE FROM a1", "CREATE", "CREATE TABLE a1 (", "CREATE TABLE a1 (b1 INT", "CREATE SEQUENCE a1", "CREATE INDEX a1 ON b1", "DROP", "GRANT" };
}
// every kind of place, with free names, digits, letter case and blanks
SYMX_ENTRY(expected_tokens) { exactly(expand(states[symx_choice("before", sizeof(states) / sizeof(*states))], true)); }
SYMX_ENTRY(expected_query) { exactly(0, 7); }
SYMX_ENTRY(expected_table) { exactly(1, 5); }
SYMX_ENTRY(expected_type) { exactly(3, 4); }
SYMX_ENTRY(expected_function) { exactly(4, 6); }
SYMX_ENTRY(expected_dml) { exactly(5, 4); }
SYMX_ENTRY(expected_ddl) { exactly(6, 6); }
SYMX_ENTRY(expected_predicate) { exactly(7, 4); }
SYMX_ENTRY(expected_query_all) { exactly(0, 1); }
SYMX_ENTRY(expected_table_all) { exactly(1, 1); }
SYMX_ENTRY(expected_literal_all) { exactly(2, 1); }
SYMX_ENTRY(expected_type_all) { exactly(3, 1); }
SYMX_ENTRY(expected_function_all) { exactly(4, 1); }
SYMX_ENTRY(expected_dml_all) { exactly(5, 1); }
SYMX_ENTRY(expected_ddl_all) { exactly(6, 1); }
SYMX_ENTRY(expected_predicate_all) { exactly(7, 1); }
// the list is cut to the number of candidates asked for, any number
SYMX_ENTRY(candidates_limit) {
    static char const* const l[] = { "", "SELECT", "SELECT a", "SELECT * FROM a", "VALUES (1)", "CREATE", "CREATE TABLE a (b INT", "INSERT INTO a", "GRANT SELECT ON a TO", "DROP" };
    std::string p = l[symx_choice("before", 10)]; std::string m {}; auto e = expected(p, m);
    auto n = static_cast<std::size_t>(symx_bits("candidates", 64)); auto eof = symx_choice("end", 2) != 0;
    auto o = run(eof ? p : p + " " + never, candidates(n)); if (o.ok) { symx_assert(eof, "a token that fits nowhere is refused"); symx_reach("done"); return; }
    std::string x = eof ? "reached end of file" : "appeared unexpected token: \"" + never + "\"";
    if (n != 0) {
        x += eof ? ": expected one of {" : ", expected one of {";
        std::size_t i = 0;
        for (auto& s : e) { if (i == n) { x += ", ..."; break; } if (i) x += ", "; x += s; ++i; }
        x += '}';
    }
    same(o.message, x, "as many expected tokens are listed as asked for, and three dots stand for the others");
    if (eof) symx_assert(o.code == sql_parser_code::unexpected_eof && o.region.begin == p.size() && o.region.end == p.size(), "an unexpected end is reported at the end"); symx_reach("done");
}
// the end of a document in the middle of a statement
SYMX_ENTRY(end_of_document) {
    auto& v = any_statement(); auto g = gaps(v.sql); auto n = symx_choice("gap", static_cast<unsigned>(g.size() + 1)); if (n == g.size()) return;
    auto p = expand(std::string { v.sql }.substr(0, g[n]), true); auto t = symx_choice("tail", 3); p += t == 0 ? "" : t == 1 ? " \n" : "--";
    auto o = run(p); if (o.ok) { symx_reach("accepted"); return; }
    symx_assert(o.code == sql_parser_code::unexpected_eof && o.region.begin == p.size() && o.region.end == p.size(), "a document that ends too early is refused at its end"); symx_reach("done");
}
// any text that is one token and does not fit is shown as written
SYMX_ENTRY(unexpected_image) {
    static char const* const l[] = { "SELECT a b", "SELECT * FROM a b", "INSERT INTO a.b.c", "VALUES (1)", "DROP TABLE a" }; std::string p = l[symx_choice("before", 5)]; p += ' ';
    std::string t {}; auto letter = [&] { char c = static_cast<char>(symbolic_letter("letter")); return c; };
    switch (symx_choice("form", 6)) {
        case 0: t = "'"; for (unsigned n = symx_choice("size", 4); n; --n) { auto b = symx_byte("byte"); symx_assume(b != '\''); t += static_cast<char>(b); } t += '\''; break;
        case 1: t = "\"x"; for (unsigned n = symx_choice("size", 4); n; --n) { auto b = symx_byte("byte"); symx_assume((b != '"') & (b >= 32) & (b != 0x7f)); t += static_cast<char>(b); } t += '"'; break;
        case 2: t = ":"; t += letter(); t += letter(); break;
        case 3: t = "1"; for (unsigned n = symx_choice("size", 8); n; --n) t += static_cast<char>(sym_digit(static_cast<char>('a' + n))); break;
        case 4: t = "q"; t += letter(); t += "_9"; t += letter(); break;
        default: t = "X'"; for (unsigned n = symx_choice("size", 4); n; --n) { auto b = symx_byte("byte"); symx_assume(b != '\''); t += static_cast<char>(b); } t += '\''; break;
    }
    auto o = run(p + t + " ", candidates(0)); symx_assert(!o.ok, "a token that does not fit is refused"); if (o.ok) return;
    symx_assert(o.code == sql_parser_code::unexpected_token && o.region.begin == p.size() && o.region.end == p.size() + t.size(), "the refusal marks exactly the token");
    same(o.message, "appeared unexpected token: \"" + t + "\"", "the refusal shows the token as written"); symx_reach("done");
}
