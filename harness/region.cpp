// The region of every node of a tree denotes exactly the text that the node was made from.
// Needs SERIALIZE_REGION, with which the nodes print their regions.
#include "corpus.h"
#include "lexer.h"
using namespace h;
namespace {
/// a printed tree with regions
struct item { std::string kind {}; bool has { false }; node_region region {}; bool valid { false }; std::string text {}; std::string where {}; int parent { -1 }; };
class collector : public ::takatori::serializer::object_acceptor {
public:
    std::vector<item> items {};
    void string(std::string_view v) override { if (key() == "node_kind") items[static_cast<std::size_t>(open_.back())].kind = v; put(v); }
    void integer(std::int64_t v) override { put(std::to_string(v)); }
    void unsigned_integer(std::uint64_t v) override {
        if (in_region_) { auto& n = items[static_cast<std::size_t>(open_.back())]; if (key() == "begin") n.region.begin = v; else { n.region.end = v; n.valid = true; } return; }
        put(std::to_string(v));
    }
    void float_number(double) override { put("float"); }
    void boolean(bool v) override { put(v ? "yes" : "no"); }
    void pointer(void const*) override {}
    void struct_begin() override {
        if (in_region_) return;
        item n {}; n.parent = open_.empty() ? -1 : open_.back(); for (std::size_t i = keys_.size(); i > 0; --i) if (keys_[i - 1] != "region") { n.where = keys_[i - 1]; break; }
        items.push_back(n); open_.push_back(static_cast<int>(items.size() - 1)); items.back().text = "{";
    }
    void struct_end() override {
        if (in_region_) return;
        auto& n = items[static_cast<std::size_t>(open_.back())]; n.text += '}'; auto t = n.text; open_.pop_back(); put(t);
    }
    void property_begin(std::string_view n) override {
        keys_.emplace_back(n);
        if (n == "region" ) { in_region_ = true; items[static_cast<std::size_t>(open_.back())].has = true; return; }
        if (skipped(n)) { ++skip_; return; }
        if (!in_region_) { put(n); put(":"); }
    }
    void property_end() override { if (key() == "region") in_region_ = false; else if (skipped(key())) --skip_; keys_.pop_back(); if (!in_region_) put(" "); }
    void array_begin() override { put("["); }
    void array_end() override { put("]"); }
private:
    std::vector<int> open_ {}; std::vector<std::string> keys_ {}; bool in_region_ { false }; int skip_ { 0 };
    // documentation is not part of a node's text, the index of a placeholder depends on those before it, the sign of a number stands outside the number
    bool skipped(std::string_view n) const { return n == "description" || (n == "index" && items[static_cast<std::size_t>(open_.back())].kind == "placeholder_reference") || n == "sign"; }
    std::string_view key() const { return keys_.empty() ? std::string_view {} : std::string_view { keys_.back() }; }
    void put(std::string_view v) { if (!open_.empty() && skip_ == 0) items[static_cast<std::size_t>(open_.back())].text += v; }
};
/// the nodes of a document; text of the first is that of the statement
std::vector<item> nodes(std::string const& sql) {
    auto r = sql_parser {}("-", sql); if (!r.has_value() || r.value()->statements().empty()) return {};
    collector c {}; c << *r.value()->statements()[0]; return std::move(c.items);
}
/// the contexts in which the text of a part can be read on its own, each with a mark x for the part
struct context { char const* before; char const* after; };
constexpr context contexts[] = { { "", "" }, { "VALUES (", ")" }, { "SELECT CAST(a AS ", ")" }, { "SELECT * FROM ", "" }, { "TABLE ", "" }, { "SELECT ", "" }, { "UPDATE a SET ", "" }, { "SELECT * FROM a ORDER BY ", "" }, { "WITH ", " TABLE a" }, { "CREATE TABLE a (", ")" }, { "CREATE TABLE a (b INT ", ")" },
    { "SELECT * FROM a WHERE ", "" }, { "SELECT * FROM a JOIN b ", "" }, { "SELECT * FROM b ", "" }, { "TABLE a UNION ", " TABLE b" }, { "GRANT ", " ON a TO b" }, { "GRANT SELECT ON ", " TO b" }, { "GRANT SELECT ON a TO ", "" }, { "SELECT CASE ", " END" }, { "SELECT CASE a ", " END" }, { "CREATE TABLE a (b INT) WITH (", ")" }, { "SELECT CAST(a AS ROW(", "))" }, { "INSERT INTO a ", "" }, { "SELECT a FROM b GROUP BY ", "" },
    { "SELECT a FROM b WHERE c = ", " (TABLE d)" }, { "SELECT INTERVAL '1' ", "" }, { "CREATE SEQUENCE a ", "" }, { "SELECT * FROM ", " b" }, { "CREATE TABLE a (b INT REFERENCES c (d) ", ")" }, { "CREATE TABLE a (FOREIGN KEY (b) ", ")" }, { "DELETE FROM a ", "" }, { "CREATE INDEX a ON b (", ")" },
    { "ALTER TABLE a ", "" }, { "ALTER INDEX a ", "" }, { "SELECT f(", ")" }, { "VALUES (1), ", "" }, { "VALUES ", "" }, { "SELECT * FROM a WHERE b IN ", "" }, { "CREATE SCHEMA AUTHORIZATION ", "" }, { "UPDATE a SET b = 1 WHERE ", "" } };
bool equal(std::string const& a, std::string const& b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
/// whether a text read in some context is that part
bool reads(std::string const& image, item const& n) {
    for (auto& c : contexts) {
        auto l = nodes(std::string { c.before } + image + c.after); std::size_t b = __builtin_strlen(c.before);
        for (auto& m : l) if (m.valid && m.kind == n.kind && m.region.begin == b && m.region.end == b + image.size() && equal(m.text, n.text)) return true;
    }
    return false;
}
void regions(std::string const& t) {
    auto plain_ = plain(t), sql = expand(t, true); symx_assert(sql.size() == plain_.size(), "the two have the same places");
    auto l = nodes(sql); symx_assert(!l.empty(), "the statement is accepted");
    auto k = reference { plain_ }.run();
    for (auto& n : l) {
        auto label = n.where + "/" + n.kind; symx_print(label.data(), label.size());
        symx_assert(n.has && n.valid, "every node has a region"); if (!n.valid) continue;
        bool in = n.region.begin < n.region.end && n.region.end <= sql.size(); symx_assert(in, "the region of a node is a part of the document"); if (!in) continue;
        bool b = false, e = false; for (auto& x : k.list) { b |= x.begin == n.region.begin; e |= x.end == n.region.end; }
        symx_assert(b & e, "the region of a node begins and ends with a token");
        for (int p = n.parent; p >= 0; p = l[static_cast<std::size_t>(p)].parent) if (auto& q = l[static_cast<std::size_t>(p)]; q.has && q.valid) { symx_assert(q.region.begin <= n.region.begin && n.region.end <= q.region.end, "the region of a node includes the regions of its parts"); break; }
        auto image = sql.substr(n.region.begin, n.region.end - n.region.begin);
        // a name whose beginning is in parentheses extends from its first to its last identifier
        int open = 0; for (char c : plain_.substr(n.region.begin, image.size())) open += c == '(' ? 1 : c == ')' ? -1 : 0;
        if (open < 0 && n.kind == "qualified") { symx_reach("parenthesized name"); continue; }
        if (!reads(image, n)) { symx_print(image.data(), image.size()); symx_assert(0, "the region of a node denotes the text of that node"); }
    }
    symx_reach("done");
}
void regions(unsigned k) { regions(std::string { any_of(corpus[k]).sql }); }
}
// text before a statement moves its regions by the size of that text and changes nothing else
SYMX_ENTRY(shifted) {
    static char const* const before[] = { " ", "\n\n", ";", "SELECT 1; ", "/* \xc3\xa9 */", "-- \xe3\x81\x82\r\n", "INSERT INTO a VALUES ('\xf0\x9f\x98\x80');\t" };
    static unsigned const statements[] = { 0, 0, 1, 1, 0, 0, 1 };
    auto n = symx_choice("before", 7); auto sql = expand(any_statement().sql, true); std::string b { before[n] };
    auto r = sql_parser {}("-", sql), q = sql_parser {}("-", b + sql); bool ok = r.has_value() && q.has_value(); symx_assert(ok, "text before a statement does not change it"); if (!ok) return;
    auto& x = r.value()->statements(); auto& y = q.value()->statements(); ok = x.size() + statements[n] == y.size(); symx_assert(ok, "text before a statement does not change it"); if (!ok) return;
    bool kinds_ = true, regions_ = true, texts = true;
    for (std::size_t i = 0; i < x.size(); ++i) {
        collector c {}, d {}; c << *x[i]; d << *y[i + statements[n]]; ok = c.items.size() == d.items.size(); symx_assert(ok, "text before a statement does not change it"); if (!ok) return;
        for (std::size_t j = 0; j < c.items.size(); ++j) { auto& u = c.items[j]; auto& v = d.items[j]; kinds_ &= u.kind == v.kind && u.valid == v.valid; texts &= equal(u.text, v.text); if (u.valid) regions_ &= v.region.begin == u.region.begin + b.size() && v.region.end == u.region.end + b.size(); }
    }
    symx_assert(kinds_, "text before a statement does not change the kinds of its nodes"); symx_assert(texts, "text before a statement does not change its nodes"); symx_assert(regions_, "text before a statement moves its regions by its size"); symx_reach("done");
}
SYMX_ENTRY(query) { regions(0); }
SYMX_ENTRY(table) { regions(1); }
SYMX_ENTRY(literal) { regions(2); }
SYMX_ENTRY(type) { regions(3); }
SYMX_ENTRY(function) { regions(4); }
SYMX_ENTRY(dml) { regions(5); }
SYMX_ENTRY(ddl) { regions(6); }
SYMX_ENTRY(predicate) { regions(7); }
