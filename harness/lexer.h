// Reference lexer: what the documented tokens of a document are, written independently of
// the flex rules. It works position by position and always takes the longest token.
#pragma once
#include "common.h"
#include <mizugaki/parser/sql_driver.h>
#include <mizugaki/parser/sql_scanner.h>
#include <sstream>
namespace h {
using mizugaki::parser::sql_scanner;
using mizugaki::parser::sql_driver;
using kind = sql_scanner::symbol_kind_type;

struct token { kind k; std::size_t begin, end; };
struct tokens { std::vector<token> list {}; std::vector<node_region> comments {}; };

/// what the scanner makes of a document
inline tokens scan(std::string const& text) {
    std::istringstream in { text }; sql_scanner scanner { in }; sql_driver driver { takatori::util::maybe_shared_ptr<takatori::document::document const> {} };
    tokens r {};
    for (std::size_t i = 0; i <= text.size() + 1; ++i) {
        auto t = scanner.next_token(driver);
        r.list.push_back({ t.kind(), t.location.begin, t.location.end });
        if (t.kind() == kind::S_YYEOF || t.kind() == kind::S_UNCLOSED_BLOCK_COMMENT) break;
    }
    for (auto& c : driver.comments()) r.comments.push_back(c);
    return r;
}

struct word_entry { char const* text; unsigned size; kind k; };
#define W(T, K) { T, sizeof(T) - 1, kind::S_##K },
inline word_entry const words[] = {
#include "words.inc"
};
#undef W
constexpr unsigned word_count = sizeof(words) / sizeof(words[0]);

/// compares without branching, so that symbolic letters do not split the path
inline bool is_word(word_entry const& w, char const* p) {
    unsigned char d = 0;
    for (unsigned i = 0; i < w.size; ++i) {
        auto c = static_cast<unsigned char>(p[i]); auto x = static_cast<unsigned char>(w.text[i]);
        bool letter = x >= 'A' && x <= 'Z';
        d = static_cast<unsigned char>(d | ((letter ? (c & 0xdfU) : c) ^ x));
    }
    return d == 0;
}

class reference {
public:
    explicit reference(std::string const& t) : t_ { t }, n_ { t.size() } {}
    tokens run() {
        std::size_t p = 0; tokens r {};
        for (;;) {
            while (p < n_ && space(p)) ++p;
            if (p == n_) { r.list.push_back({ kind::S_YYEOF, p, p }); return r; }
            if (is(p, '/') && is(p + 1, '*')) {
                std::size_t q = p + 2; while (q < n_ && !(is(q, '*') && is(q + 1, '/'))) ++q;
                if (q == n_) { r.list.push_back({ kind::S_UNCLOSED_BLOCK_COMMENT, p, p + 2 }); return r; }
                r.comments.emplace_back(p, q + 2); p = q + 2; continue;
            }
            if (is(p, '-') && is(p + 1, '-')) {
                std::size_t q = p + 2; while (q < n_ && !is(q, '\n') && !(is(q, '\r') && is(q + 1, '\n'))) ++q;
                r.comments.emplace_back(p, q);
                p = q; if (p < n_) p += is(p, '\r') ? 2 : 1;
                continue;
            }
            auto e = one(p); r.list.push_back({ kind_, p, e }); p = e;
        }
    }
private:
    std::string const& t_; std::size_t n_; kind kind_ {};
    bool is(std::size_t i, char c) const { return i < n_ && t_[i] == c; }
    unsigned char at(std::size_t i) const { return i < n_ ? static_cast<unsigned char>(t_[i]) : 0; }
    static bool between(unsigned char c, unsigned char a, unsigned char b) { return static_cast<unsigned char>(c - a) <= static_cast<unsigned char>(b - a); }
    bool space(std::size_t i) const { return i < n_ && ((at(i) == 32) | between(at(i), 9, 13)); }
    bool letter(std::size_t i) const { return i < n_ && ((at(i) == '_') | between(static_cast<unsigned char>(at(i) | 0x20U), 'a', 'z')); }
    bool digit(std::size_t i) const { return i < n_ && between(at(i), '0', '9'); }
    std::size_t digits(std::size_t p) const { while (digit(p)) ++p; return p; }
    /// the word that starts after a phrase's first word and blanks, or 0
    std::size_t phrase(std::size_t p, char const* first, unsigned fn, char const* second, unsigned sn) const {
        if (!same(p, first, fn)) return 0;
        std::size_t q = p + fn; if (!space(q)) return 0;
        while (space(q)) ++q;
        return same(q, second, sn) ? q + sn : 0;
    }
    bool same(std::size_t p, char const* w, unsigned n) const { return p + n <= n_ && is_word({ w, n, kind {} }, t_.data() + p); }
    std::size_t take(std::size_t e, kind k) { kind_ = k; return e; }
    std::size_t quoted(std::size_t p, char q) const {
        // the longest text in quotes in which quotes are doubled
        std::size_t end = 0;
        for (std::size_t i = p + 1; i < n_; ++i) {
            if (is(i, q)) { end = i + 1; if (is(i + 1, q)) { ++i; continue; } break; }
        }
        return end;
    }
    std::size_t delimited(std::size_t p) const {
        std::size_t end = 0;
        for (std::size_t i = p + 1; i < n_; ++i) {
            if (is(i, '"')) { if (i > p + 1) end = i + 1; if (is(i + 1, '"')) { ++i; continue; } break; }
            if ((at(i) < 0x20) | (at(i) == 0x7f)) break;
        }
        return end;
    }
    std::size_t one(std::size_t p) {
        auto c = at(p);
        if (letter(p)) {
            std::size_t e = p; while (letter(e) || digit(e)) ++e;
            if (same(p, "X", 1) && is(p + 1, '\'')) if (auto q = quoted(p + 1, '\'')) return take(q, kind::S_HEX_STRING_LITERAL);
            if (auto q = phrase(p, "UNION", 5, "JOIN", 4)) if (q > e) return take(q, kind::S_UNION_JOIN);
            if (auto q = phrase(p, "OUTER", 5, "APPLY", 5)) if (q > e) return take(q, kind::S_OUTER_APPLY);
            if (e - p == 3 && same(p, "END-EXEC", 8)) return take(p + 8, kind::S_END_EXEC);
            if (e - p == 1 && is(p, '_')) return take(e, kind::S_UNDERSCORE);
            for (auto& w : words) if (w.size == e - p && is_word(w, t_.data() + p)) return take(e, w.k);
            if (e - p >= 2 && is(p, '_') && is(p + 1, '_')) return take(e, kind::S_REGULAR_IDENTIFIER_RESTRICTED);
            return take(e, kind::S_REGULAR_IDENTIFIER);
        }
        if (digit(p)) {
            std::size_t e = digits(p); kind k = kind::S_UNSIGNED_INTEGER;
            if (is(e, '.') && digit(e + 1)) { e = digits(e + 1); k = kind::S_EXACT_NUMERIC_LITERAL; }
            if (e < n_ && static_cast<unsigned char>(at(e) | 0x20U) == 'e') {
                std::size_t x = e + 1; if (is(x, '+') || is(x, '-')) ++x;
                if (digit(x)) { e = digits(x); k = kind::S_APPROXIMATE_NUMERIC_LITERAL; }
            }
            return take(e, k);
        }
        if (c == '\'') { if (auto q = quoted(p, '\'')) return take(q, kind::S_CHARACTER_STRING_LITERAL); return take(p + 1, kind::S_QUOTE); }
        if (c == '"') { if (auto q = delimited(p)) return take(q, is(p + 1, '_') && is(p + 2, '_') ? kind::S_DELIMITED_IDENTIFIER_RESTRICTED : kind::S_DELIMITED_IDENTIFIER); return take(p + 1, kind::S_ERROR); }
        if (c == ':') {
            if (letter(p + 1)) { std::size_t e = p + 1; while (letter(e) || digit(e)) ++e; return take(e, kind::S_HOST_PARAMETER_NAME); }
            if (is(p + 1, ':')) return take(p + 2, kind::S_DOUBLE_COLON);
            return take(p + 1, kind::S_COLON);
        }
        if (c == '.') { std::size_t q = p + 1; while (space(q)) ++q; if (is(q, '*')) return take(q + 1, kind::S_DOT_ASTERISK); return take(p + 1, kind::S_PERIOD); }
        static constexpr struct { char a, b; kind k; } two[] = { { '<', '>', kind::S_NOT_EQUALS_OPERATOR }, { '!', '=', kind::S_NOT_EQUALS_ALTERNATIVE_OPERATOR }, { '>', '=', kind::S_GREATER_THAN_OR_EQUALS_OPERATOR }, { '<', '=', kind::S_LESS_THAN_OR_EQUALS_OPERATOR },
            { '|', '|', kind::S_CONCATENATION_OPERATOR }, { '-', '>', kind::S_RIGHT_ARROW }, { '<', '@', kind::S_CONTAINS_OPERATOR }, { '@', '>', kind::S_IS_CONTAINED_BY_OPERATOR }, { '&', '&', kind::S_OVERLAPS_OPERATOR } };
        for (auto& t : two) if (is(p, t.a) && is(p + 1, t.b)) return take(p + 2, t.k);
        static constexpr struct { char a; kind k; } single[] = { { '%', kind::S_PERCENT }, { '&', kind::S_AMPERSAND }, { '(', kind::S_LEFT_PAREN }, { ')', kind::S_RIGHT_PAREN }, { '*', kind::S_ASTERISK }, { '+', kind::S_PLUS_SIGN }, { ',', kind::S_COMMA }, { '-', kind::S_MINUS_SIGN },
            { '/', kind::S_SOLIDUS }, { ';', kind::S_SEMICOLON }, { '<', kind::S_LESS_THAN_OPERATOR }, { '=', kind::S_EQUALS_OPERATOR }, { '>', kind::S_GREATER_THAN_OPERATOR }, { '?', kind::S_QUESTION_MARK }, { '[', kind::S_LEFT_BRACKET }, { ']', kind::S_RIGHT_BRACKET },
            { '^', kind::S_CIRCUMFLEX }, { '|', kind::S_VERTICAL_BAR }, { '{', kind::S_LEFT_BRACE }, { '}', kind::S_RIGHT_BRACE } };
        for (auto& s : single) if (c == static_cast<unsigned char>(s.a)) return take(p + 1, s.k);
        // not a character of SQL: one character of UTF-8, or one byte
        if (between(c, 0xc2, 0xdf) && tail(p + 1)) return take(p + 2, kind::S_ERROR);
        if (between(c, 0xe0, 0xef) && tail(p + 1) && tail(p + 2)) return take(p + 3, kind::S_ERROR);
        if (between(c, 0xf0, 0xf4) && tail(p + 1) && tail(p + 2) && tail(p + 3)) return take(p + 4, kind::S_ERROR);
        return take(p + 1, kind::S_ERROR);
    }
    bool tail(std::size_t i) const { return i < n_ && between(at(i), 0x80, 0xbf); }
};

inline void compare(std::string const& text) {
    auto a = scan(text); auto b = reference { text }.run();
    symx_assert(a.list.size() == b.list.size(), "the scanner finds as many tokens as the documented rules");
    std::size_t n = a.list.size() < b.list.size() ? a.list.size() : b.list.size();
    for (std::size_t i = 0; i < n; ++i) {
        symx_assert(a.list[i].k == b.list[i].k, "each token is of the documented kind");
        symx_assert((a.list[i].begin == b.list[i].begin) & (a.list[i].end == b.list[i].end), "each token is the longest one possible at its place");
    }
    symx_assert(a.comments.size() == b.comments.size(), "every comment is recorded once");
    if (a.comments.size() == b.comments.size()) for (std::size_t i = 0; i < a.comments.size(); ++i)
        symx_assert((a.comments[i].begin == b.comments[i].begin) & (a.comments[i].end == b.comments[i].end), "a comment is recorded with its extent");
}
inline std::string symbolic(unsigned n) { std::string s(n, '\0'); for (auto& c : s) c = static_cast<char>(symx_byte("byte")); return s; }
/// n symbolic bytes of a small alphabet; ^ stands for any byte from 0x80 on
inline std::string symbolic(unsigned n, std::string_view alphabet) {
    std::string s(n, '\0');
    for (auto& c : s) { auto b = symx_byte("byte"); bool ok = false; for (char a : alphabet) ok = ok | (a == '^' ? b >= 0x80 : b == static_cast<unsigned char>(a)); symx_assume(ok); c = static_cast<char>(b); }
    return s;
}
} // namespace h
