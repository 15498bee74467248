// Shared helpers of the harnesses: parse a document and print its tree compactly.
#pragma once
#include "../engine/symx.h"
#include <initializer_list>
#include <string>
#include <string_view>
#include <vector>
#include <takatori/serializer/object_acceptor.h>
#include <mizugaki/ast/compilation_unit.h>
#include <mizugaki/parser/sql_parser.h>
#include <mizugaki/parser/sql_parser_options.h>

namespace h {

using mizugaki::parser::sql_parser;
using mizugaki::parser::sql_parser_options;
using mizugaki::parser::sql_parser_code;
using mizugaki::ast::node_region;

/// prints a serialized tree as kind{property:value ...}; empty values, empty lists,
/// false flags and the default identifier kind are left out; frequent one-property
/// nodes are abbreviated by the rules below
class compact : public ::takatori::serializer::object_acceptor {
public:
    std::string out {};
    void string(std::string_view v) override { if (key_ == "node_kind") { mark_.back().kind(v, out); return; } if (key_ == "identifier_kind" && v == "regular") return; sep(); out.append(v); }
    void integer(std::int64_t v) override { if (v < 0) { sep(); out += '-'; num(0 - static_cast<std::uint64_t>(v)); } else { sep(); num(static_cast<std::uint64_t>(v)); } }
    void unsigned_integer(std::uint64_t v) override { sep(); num(v); }
    void float_number(double) override { sep(); out += "float"; }
    void boolean(bool v) override { if (v) { sep(); out += "yes"; } }
    void pointer(void const*) override { sep(); out += "ptr"; }
    void struct_begin() override { sep(); mark_.push_back({ out.size(), 0 }); out += '{'; first_ = true; key_ = {}; }
    void struct_end() override {
        auto m = mark_.back(); mark_.pop_back(); first_ = false;
        if (m.count == 1) for (auto& r : rules) if (starts(m.pos, r[0])) { out.erase(m.pos, std::string_view { r[0] }.size()); out.insert(m.pos, r[1]); return; }
        if (m.count == 2 && starts(m.pos, "exact_numeric{sign:minus unsigned_value:")) { out.replace(m.pos, 40, "#-"); return; }
        if (m.count == 2 && starts(m.pos, "exact_numeric{sign:plus unsigned_value:")) { out.replace(m.pos, 39, "#+"); return; }
        if (m.count == 2 && starts(m.pos, "simple{identifier:") && tail(" identifier_kind:delimited")) { out.replace(m.pos, 18, "\""); out.resize(out.size() - 26); out += '"'; return; }
        out += '}';
    }
    void property_begin(std::string_view n) override { keys_.push_back({ key_, out.size(), first_ }); key_ = n; if (n == "node_kind") return; if (!first_) out += ' '; out.append(n); out += ':'; vals_.push_back(out.size()); first_ = true; }
    void property_end() override {
        auto k = keys_.back(); keys_.pop_back();
        if (key_ != "node_kind") { bool any = out.size() != vals_.back(); vals_.pop_back(); if (!any) { out.resize(k.pos); first_ = k.first; } else { first_ = false; ++mark_.back().count; } }
        else first_ = k.first;
        key_ = k.key;
    }
    void array_begin() override { sep(); arr_.push_back(out.size()); out += '['; first_ = true; akeys_.push_back(key_); key_ = {}; }
    void array_end() override { if (out.size() == arr_.back() + 1) out.resize(arr_.back()); else out += ']'; arr_.pop_back(); key_ = akeys_.back(); akeys_.pop_back(); first_ = false; }
private:
    struct mark { std::size_t pos; unsigned count; void kind(std::string_view v, std::string& o) { o.insert(pos, v.data(), v.size()); } };
    static constexpr char const* rules[][2] = { { "simple{identifier:", "" }, { "variable_reference{name:", "$" }, { "literal_expression{value:", "" }, { "exact_numeric{unsigned_value:", "#" }, { "select_statement{expression:", "" }, { "character_string{value:", "" }, { "table_reference{name:", "@" } };
    bool starts(std::size_t p, std::string_view t) const { return out.size() - p >= t.size() && __builtin_memcmp(out.data() + p, t.data(), t.size()) == 0; }
    bool tail(std::string_view t) const { return out.size() >= t.size() && __builtin_memcmp(out.data() + out.size() - t.size(), t.data(), t.size()) == 0; }
    struct saved { std::string_view key; std::size_t pos; bool first; };
    std::vector<mark> mark_ {}; std::vector<saved> keys_ {}; std::vector<std::size_t> vals_ {}; std::vector<std::size_t> arr_ {}; std::vector<std::string_view> akeys_ {};
    std::string_view key_ {}; bool first_ { true };
    void sep() { if (!first_ && (arr_.size() && key_.empty())) out += ' '; first_ = false; }
    void num(std::uint64_t v) { char b[24]; int n = 0; do { b[n++] = static_cast<char>('0' + v % 10); v /= 10; } while (v); while (n) out += b[--n]; }
};

template<class T> std::string tree(T const& node) { compact c {}; c << node; return c.out; }

/// outcome of one parse
struct outcome {
    bool ok { false };
    std::string text {};                       ///< statements, in compact form, separated by ';'
    sql_parser_code code { sql_parser_code::unknown };
    std::string message {};
    node_region region {};
    std::size_t statements { 0 };
    std::size_t nodes { 0 }, depth { 0 };
};

inline outcome run(sql_parser const& parser, std::string const& sql) {
    outcome o {};
    auto r = parser("-", sql);
    o.ok = r.has_value();
    if (o.ok) {
        auto&& unit = *r.value();
        bool first = true;
        for (auto&& s : unit.statements()) { if (!first) o.text += ';'; first = false; o.text += s ? tree(*s) : std::string { "null" }; }
        o.statements = unit.statements().size();
        o.nodes = r.tree_node_count(); o.depth = r.max_tree_depth();
    } else {
        o.code = r.diagnostic().code(); o.message = r.diagnostic().message(); o.region = r.diagnostic().region();
    }
    return o;
}
inline outcome run(std::string const& sql, sql_parser_options options = {}) { return run(sql_parser { std::move(options) }, sql); }

inline void same(std::string const& actual, std::string const& expected, char const* msg) {
    symx_print(actual.data(), actual.size()); symx_print(expected.data(), expected.size());
    symx_assert(actual.size() == expected.size(), msg);
    if (actual.size() == expected.size()) symx_same(actual.data(), expected.data(), actual.size(), msg);
}

// ---- document templates -------------------------------------------------------------
// A template is SQL text in which, outside quotes,
//   an upper case letter   stands for that letter in either case (symbolic case bit)
//   a blank                stands for any one of the six white-space characters
//   a letter and 1 (a1)    stands for a name with a symbolic letter (the same for each use)
// and anywhere
//   ~x                     stands for a symbolic decimal digit (the same for each x)
//   ^x                     stands for a symbolic byte other than quotes, control characters and DEL
// The expected tree is a template of its own, in which only the names, ~x and ^x are replaced.
struct symbols { unsigned spare { 150 }; unsigned char letter[26], digit[26], byte[26]; bool has_letter[26], has_digit[26], has_byte[26]; };
inline symbols& syms() { static symbols s {}; return s; }
inline unsigned char symbolic_letter(char const* label) {
    auto b = static_cast<unsigned char>(symx_bits(label, 6)); auto l = static_cast<unsigned char>(b & 31U);
    return static_cast<unsigned char>((l < 26 ? 'a' + l : 'a' + l - 26) ^ (b & 32U));
}
inline unsigned char sym_letter(char c) { auto& s = syms(); unsigned i = static_cast<unsigned>(c - 'a'); if (!s.has_letter[i]) { char n[2] { c, 0 }; s.letter[i] = symbolic_letter(n); s.has_letter[i] = true; } return s.letter[i]; }
inline unsigned char sym_digit(char c) { auto& s = syms(); unsigned i = static_cast<unsigned>(c - 'a'); if (!s.has_digit[i]) { char n[3] { '~', c, 0 }; auto b = static_cast<unsigned char>(symx_bits(n, 4)); s.digit[i] = static_cast<unsigned char>('0' + (b < 10 ? b : b - 6)); s.has_digit[i] = true; } return s.digit[i]; }
inline unsigned char sym_byte(char c) {
    auto& s = syms(); unsigned i = static_cast<unsigned>(c - 'a');
    if (!s.has_byte[i]) { char n[3] { '^', c, 0 }; auto b = symx_byte(n); symx_assume((b >= 0x20) & (b != '\'') & (b != '"') & (b != 0x7f)); s.byte[i] = b; s.has_byte[i] = true; }
    return s.byte[i];
}
inline bool word(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
/// at most 150 letters and blanks of a document are symbolic
inline bool spend() { auto& s = syms(); if (s.spare == 0) return false; --s.spare; return true; }
inline std::string expand(std::string const& t, bool sql) {
    std::string r {}; r.reserve(t.size() + 8);
    char quote = 0;
    for (std::size_t i = 0; i < t.size(); ++i) {
        char c = t[i]; char n = i + 1 < t.size() ? t[i + 1] : '\0';
        if ((c == '~' || c == '^') && n >= 'a' && n <= 'z') { r += static_cast<char>(c == '~' ? sym_digit(n) : sym_byte(n)); ++i; continue; }
        if (c >= 'a' && c <= 'z' && n == '1' && (i == 0 || !word(t[i - 1])) && (i + 2 >= t.size() || !word(t[i + 2]))) { r += static_cast<char>(sym_letter(c)); continue; }
        if (sql) {
            if (quote) { if (c == quote) quote = 0; }
            else if (c == '\'' || c == '"') quote = c;
            else if (c >= 'A' && c <= 'Z' && spend()) { r += static_cast<char>(c ^ (symx_bits("case", 1) << 5)); continue; }
            else if (c == ' ' && spend()) { auto b = static_cast<unsigned char>(symx_bits("blank", 3)); r += static_cast<char>(b < 5 ? 9 + b : 32); continue; }
        }
        r += c;
    }
    return r;
}
/// the document parses, and to exactly this tree
inline void expect(std::string const& sql, std::string const& expected, char const* msg) {
    auto o = run(expand(sql, true));
    symx_assert(o.ok, msg);
    if (!o.ok) return;
    same(o.text, expand(expected, false), msg);
}
/// the document is rejected with a diagnostic
inline void reject(std::string const& sql, char const* msg) { symx_assert(!run(expand(sql, true)).ok, msg); }

struct variant { char const* sql; char const* tree; };
template<std::size_t N> variant const& choose(char const* label, variant const (&l)[N]) { return l[symx_choice(label, N)]; }
/// replaces every @ in a template
inline std::string fill(std::string const& t, std::string const& v) { std::string r {}; for (char c : t) if (c == '@') r += v; else r += c; return r; }
/// replaces the marker $0, $1, ... in a template
inline std::string put(std::string t, std::initializer_list<std::string> vs) {
    std::string r {};
    for (std::size_t i = 0; i < t.size(); ++i) if (t[i] == '$' && i + 1 < t.size() && t[i + 1] >= '0' && t[i + 1] <= '9') { r += *(vs.begin() + (t[++i] - '0')); } else r += t[i];
    return r;
}
} // namespace h
