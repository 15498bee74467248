// The parts that the accessors of nodes refer to, and the places of their operators, kinds and options.
#include "corpus.h"
#include "walk.h"
#include <mizugaki/ast/common/serializers.h>
using namespace h;
namespace {
using mizugaki::ast::common::regioned;
namespace ser = mizugaki::ast::common::serializers;
#include "parts.inc"
bool equal(std::string const& a, std::string const& b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
/// prints everything; keeps the printed text of the properties of the outermost object
class printer : public ::takatori::serializer::object_acceptor {
public:
    std::string out {};
    struct property { std::string name {}; std::string text {}; };
    std::vector<property> properties {};
    void string(std::string_view v) override { out += '\''; out.append(v); out += '\''; }
    void integer(std::int64_t v) override { out += std::to_string(v); }
    void unsigned_integer(std::uint64_t v) override { out += std::to_string(v); }
    void float_number(double) override { out += "float"; }
    void boolean(bool v) override { out += v ? "yes" : "no"; }
    void pointer(void const*) override { out += "ptr"; }
    void struct_begin() override { out += '{'; ++depth_; }
    void struct_end() override { out += '}'; --depth_; }
    explicit printer(bool keeps) : keeps_ { keeps } {}
    void property_begin(std::string_view n) override { if (keeps_ && depth_ == 1) { properties.push_back({ std::string { n }, {} }); begin_ = out.size(); } else { out.append(n); out += ':'; } }
    void property_end() override { if (keeps_ && depth_ == 1) properties.back().text = out.substr(begin_); out += ' '; }
    void array_begin() override { out += '['; }
    void array_end() override { out += ']'; }
private:
    bool keeps_; unsigned depth_ { 0 }; std::size_t begin_ { 0 };
};
template<class T> std::string printed(T const& v) { printer p { false }; ser::serialize(p, v); return p.out; }
std::string printed(std::shared_ptr<std::string const> const&) { return {}; }
template<class T> struct is_regioned : std::false_type {};
template<class T> struct is_regioned<regioned<T>> : std::true_type {};
/// compares what the accessors of one node refer to with what the node prints
struct same_parts {
    printer const& p; std::vector<bool> seen {}; unsigned count { 0 };
    template<class T, class U> void operator()(char const* name, T const& c, U& m) {
        if constexpr (std::is_same_v<T, U>) symx_assert(std::addressof(c) == std::addressof(m), "both forms of an accessor refer to the same part");
        (*this)(name, c);
    }
    template<class T> void operator()(char const* name, T const& c) {
        std::string_view n { name };
        if constexpr (std::is_same_v<std::decay_t<T>, bool>) { if (n == "is_varying" || n.substr(0, 11) == "is_flexible") { derived(n, c); return; } }
        symx_print(name, n.size());
        if constexpr (!printable<T>::value) { (void) c; }
        else {
            auto text = printed(c); bool found = false;
            for (std::size_t i = 0; i < p.properties.size(); ++i) if (auto& q = p.properties[i]; q.name == n || (q.name == "node_kind" && !has(n) && n.size() > 5 && n.substr(n.size() - 5) == "_kind")) {
                found = true; seen[i] = true; symx_print(text.data(), text.size()); symx_print(q.text.data(), q.text.size());
                symx_assert(equal(q.text, text), "an accessor refers to the part that it names"); break;
            }
            symx_assert(found || text.empty(), "every part is printed"); ++count;
        }
    }
    bool has(std::string_view n) const { for (auto& q : p.properties) if (q.name == n) return true; return false; }
    std::string_view text(std::string_view n) const { for (auto& q : p.properties) if (q.name == n) return q.text; return {}; }
    void derived(std::string_view n, bool c) {
        bool e = false;
        if (n == "is_varying") e = text("node_kind").find("varying") != std::string_view::npos; else e = text(n.substr(12)) == "'*'";
        symx_assert(c == e, "a flag of a type is that of its kind or size");
    }
private:
    template<class T, class = void> struct printable : std::true_type {};
    template<class T> struct printable<T*> : std::false_type {};
    template<class T> struct printable<takatori::util::optional_ptr<T>> : std::false_type {};
};
template<class T, class = void> struct with_parts : std::false_type {};
template<class T> struct with_parts<T, std::void_t<decltype(parts(std::declval<T const&>(), std::declval<same_parts&>()))>> : std::true_type {};
struct accessors {
    unsigned count { 0 };
    template<class T> void operator()(T const& n) {
        if constexpr (with_parts<T>::value) {
        printer p { true }; ser::serialize(p, n); same_parts f { p }; f.seen.resize(p.properties.size()); parts(n, f);
        for (std::size_t i = 0; i < p.properties.size(); ++i) { auto& q = p.properties[i]; if (q.name != "node_kind" && q.name != "region") { symx_print(q.name.data(), q.name.size()); symx_assert(f.seen[i], "everything that a node prints is a part of it"); } }
        count += f.count;
        }
    }
    template<class T> void base(T const&) {}
};
void accessed(unsigned k) {
    auto r = sql_parser {}("-", expand(any_of(corpus[k]).sql, true)); symx_assert(r.has_value(), "the statement is accepted"); if (!r.has_value()) return;
    accessors f {}; for (auto& s : r.value()->statements()) walk(s, f); symx_assert(f.count > 0, "a statement has parts"); symx_reach("done");
}
}
SYMX_ENTRY(accessors_query) { accessed(0); }
SYMX_ENTRY(accessors_table) { accessed(1); }
SYMX_ENTRY(accessors_literal) { accessed(2); }
SYMX_ENTRY(accessors_type) { accessed(3); }
SYMX_ENTRY(accessors_function) { accessed(4); }
SYMX_ENTRY(accessors_dml) { accessed(5); }
SYMX_ENTRY(accessors_ddl) { accessed(6); }
SYMX_ENTRY(accessors_predicate) { accessed(7); }
// ---- the places of operators, kinds, options and sizes -------------------------------
namespace {
std::string upper(std::string_view t) {
    std::string r {}; bool gap = false;
    for (char c : t) { if (c == ' ' || c == '\n' || c == '\t' || c == '_') { gap = true; continue; } if (gap && !r.empty()) r += ' '; gap = false; r += c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c; }
    return r;
}
void cut(std::string& t, std::string_view word) { auto p = t.find(word); if (p != std::string::npos) t.erase(p, word.size()); }
/// words other than the enumerator itself; '-' stands for values that are understood without any word
constexpr struct { std::string_view part, value, words; } spellings[] = {
    { "operator_kind", "asterisk", "*" }, { "operator_kind", "concatenation", "||" }, { "operator_kind", "contains", "<@" }, { "operator_kind", "is_contained_by", "@>" }, { "operator_kind", "have_elements_in_common", "&&" }, { "operator_kind", "element_reference", "[" },
    { "operator_kind", "minus", "-" }, { "operator_kind", "plus", "+" }, { "operator_kind", "percent", "%" }, { "operator_kind", "solidus", "/" }, { "operator_kind", "equals", "=" }, { "operator_kind", "greater_than", ">" }, { "operator_kind", "greater_than_or_equals", ">=" }, { "operator_kind", "less_than", "<" }, { "operator_kind", "less_than_or_equals", "<=" },
    { "operator_kind", "not_equals", "<>" }, { "operator_kind", "not_equals_alternative", "!=" }, { "operator_kind", "arrow", "->" }, { "operator_kind", "period", "." }, { "operator_kind", "reference_resolution", "DEREF" }, { "sign", "minus", "-" }, { "sign", "plus", "+" },
    { "function", "character_length", "CHAR LENGTH" }, { "null_location", "first", "NULLS FIRST" }, { "null_location", "last", "NULLS LAST" }, { "value_kind", "time", "TIME WITHOUT TIME ZONE" }, { "value_kind", "timestamp", "TIMESTAMP WITHOUT TIME ZONE" }, { "value_kind", "hex_string", "X" },
    { "statement_kind", "drop_table_statement", "TABLE" }, { "statement_kind", "drop_index_statement", "INDEX" }, { "statement_kind", "drop_view_statement", "VIEW" }, { "statement_kind", "drop_schema_statement", "SCHEMA" }, { "statement_kind", "drop_sequence_statement", "SEQUENCE" },
    { "constraint_kind", "default_clause", "DEFAULT" }, { "constraint_kind", "generation_clause", "GENERATED" }, { "options", "or_ignore", "INSERT IF NOT EXISTS" }, { "options", "or_ignore", "INSERT OR IGNORE" }, { "options", "or_replace", "INSERT OR REPLACE" }, { "options", "or_replace", "UPDATE OR INSERT" }, { "options", "or_replace", "REPLACE" }, { "options", "no_cycle", "CYCLE" },
    { "cycle", "false", "CYCLE" }, { "cycle", "false", "NO CYCLE" }, { "cycle", "true", "CYCLE" }, { "is_recursive", "true", "RECURSIVE" }, { "is_not", "true", "NOT" }, { "if_exists", "true", "IF EXISTS" }, { "is_lateral", "true", "LATERAL" }, { "is_only", "true", "ONLY" }, { "with_ordinality", "true", "WITH ORDINALITY" }, { "has_time_zone", "true", "WITH TIME ZONE" }, { "has_time_zone", "false", "WITHOUT TIME ZONE" },
    { "type_kind", "binary_float", "FLOAT" }, { "type_kind", "binary_integer", "INT" }, { "type_kind", "binary_integer", "INTEGER" }, { "type_kind", "character", "CHAR" }, { "type_kind", "character_varying", "CHAR VARYING" }, { "type_kind", "character_varying", "VARCHAR" }, { "type_kind", "decimal", "DEC" }, { "type_kind", "octet", "BINARY" }, { "type_kind", "octet_varying", "BINARY VARYING" }, { "type_kind", "octet_varying", "VARBINARY" },
    { "is_recursive", "false", "-" }, { "is_not", "false", "-" }, { "if_exists", "false", "-" }, { "is_lateral", "false", "-" }, { "is_only", "false", "-" }, { "with_ordinality", "false", "-" }, { "operator_kind", "cast", "-" }, { "operator_kind", "generalize", "-" }, { "operator_kind", "row", "-" }, { "value_kind", "character_string", "-" } };
bool spelled(std::string_view part, std::string_view value, std::string const& words) {
    if (words == upper(value)) return true;
    for (auto& s : spellings) if (s.part == part && s.value == value && s.words == words) return true;
    if (value == "table" && part == "object_kind" && words.substr(0, 6) == "TABLE ") return true;
    if (part == "operator_kind" && words.size() >= 4 && words.substr(words.size() - 4) == "JOIN") {
        auto v = upper(value); auto w = words; w.erase(w.size() - 4); if (!w.empty()) w.pop_back();
        cut(v, " OUTER"); cut(w, " OUTER"); if (v == w) return true; cut(v, " INNER"); cut(v, "INNER"); return v == w;
    }
    return false;
}
struct places {
    std::string const& sql; std::string const& plain_; node_region outer {}; unsigned& count;
    template<class T> void value(std::string_view part, regioned<T> const& v) {
        symx_print(part.data(), part.size());
        auto r = v.region(); bool in = r && r.begin < r.end && r.end <= sql.size();
        symx_assert(in || !r, "the place of a value is a part of the document"); if (!in && r) return;
        std::string text = r ? plain_.substr(r.begin, r.end - r.begin) : std::string { "-" }; ++count; symx_print(text.data(), text.size());
        // the sign of a number stands before the number
        if (r && part != "sign") symx_assert(outer.begin <= r.begin && r.end <= outer.end, "the place of a value lies inside its node");
        if constexpr (std::is_enum_v<T> || std::is_same_v<T, bool>) {
            std::string value {}; if constexpr (std::is_enum_v<T>) value = to_string_view(*v); else value = *v ? "true" : "false";
            symx_print(value.data(), value.size()); symx_assert(spelled(part, value, r ? upper(text) : text), "the place of a value is that of its words");
        } else if constexpr (std::is_same_v<T, std::size_t>) {
            bool digits = true; for (char c : text) digits &= c >= '0' && c <= '9'; symx_assert(r && (digits || text == "*"), "the place of a size is that of its digits");
            if (r && text == "*") symx_assert(*v == static_cast<std::size_t>(-1), "an unlimited size is written as such");
        } else if (r) symx_assert(equal(sql.substr(r.begin, r.end - r.begin), std::string { *v }), "the place of a text is that of its characters");
    }
    template<class T> void part(std::string_view n, regioned<T> const& v) { value(n, v); }
    template<class T> void part(std::string_view n, std::vector<regioned<T>> const& v) { for (auto& e : v) value(n, e); }
    template<class T> void part(std::string_view n, std::optional<regioned<T>> const& v) { if (v) value(n, *v); }
    template<class T> void part(std::string_view, T const&) {}
    template<class T, class U> void operator()(char const* n, T const& v, U&) { part(n, v); }
    template<class T> void operator()(char const* n, T const& v) { if constexpr (!std::is_same_v<std::decay_t<T>, regioned<bool>>) part(n, v); else if (std::string_view { n } == "if_exists") part(n, v); }
};
struct placed {
    std::string const& sql; std::string const& plain_; unsigned count { 0 };
    template<class T> void operator()(T const& n) { if constexpr (with_parts<T>::value) { places f { sql, plain_, n.region(), count }; parts(n, f); } }
    template<class T> void base(T const&) {}
};
void words_of(unsigned k) {
    std::string t { any_of(corpus[k]).sql }; auto sql = expand(t, true), plain_ = plain(t); symx_assert(sql.size() == plain_.size(), "the two have the same places");
    auto r = sql_parser {}("-", sql); symx_assert(r.has_value(), "the statement is accepted"); if (!r.has_value()) return;
    placed f { sql, plain_ }; for (auto& s : r.value()->statements()) walk(s, f); if (f.count) symx_reach("placed"); symx_reach("done");
}
}
SYMX_ENTRY(words_query) { words_of(0); }
SYMX_ENTRY(words_table) { words_of(1); }
SYMX_ENTRY(words_literal) { words_of(2); }
SYMX_ENTRY(words_type) { words_of(3); }
SYMX_ENTRY(words_function) { words_of(4); }
SYMX_ENTRY(words_dml) { words_of(5); }
SYMX_ENTRY(words_ddl) { words_of(6); }
SYMX_ENTRY(words_predicate) { words_of(7); }
