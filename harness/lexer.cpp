// Scanner: tokens, comments and their extents, against the reference lexer.
#include "lexer.h"
using namespace h;
namespace {
void all(unsigned n) { compare(symbolic(n)); symx_reach("done"); }
void all(unsigned n, std::string_view alphabet) { compare(symbolic(n, alphabet)); symx_reach("done"); }
}
SYMX_ENTRY(any0) { all(0); }
SYMX_ENTRY(any1) { all(1); }
SYMX_ENTRY(any2) { all(2); }
SYMX_ENTRY(any3) { all(3); }
SYMX_ENTRY(any4) { all(4); }
SYMX_ENTRY(numbers) { all(6, "1.eE+-"); }
SYMX_ENTRY(numbers7) { all(7, "1.e+-"); }
SYMX_ENTRY(quoted) { all(5, "'\"Xx_a\x01\x7f^"); }
SYMX_ENTRY(quoted6) { all(6, "'\"X_\n\x1f^"); }
SYMX_ENTRY(comments) { all(6, "/*-\n\ra"); }
SYMX_ENTRY(comments7) { all(7, "/*-\n\r'"); }
SYMX_ENTRY(utf8) { all(4, "^"); }
SYMX_ENTRY(utf8_5) { all(5, "^"); }
SYMX_ENTRY(operators) { all(4, "<>=!|&@:-.*a "); }
// blanks and everything else inside the three phrases
SYMX_ENTRY(phrases) {
    static char const* const f[][2] = { { "union", "join" }, { "outer", "apply" }, { ".", "*" }, { "end", "exec" }, { "union", "joins" }, { "aunion", "join" }, { "outer", "apply1" }, { "1.", "*" } };
    auto k = symx_choice("phrase", 8); auto n = symx_choice("gap", 3);
    compare(std::string { f[k][0] } + symbolic(n) + f[k][1]); symx_reach("done");
}
SYMX_ENTRY(phrases3) {
    static char const* const f[][2] = { { "union", "join" }, { "outer", "apply" }, { ".", "*" }, { "end", "exec" } };
    auto k = symx_choice("phrase", 4);
    compare(std::string { f[k][0] } + symbolic(3, "\t\n\v\f\r -/*a") + f[k][1]); symx_reach("done");
}
namespace {
/// the spelling of a word with free letter case
std::string spelled(word_entry const& w) { std::string s {}; for (unsigned i = 0; i < w.size; ++i) { char c = w.text[i]; s += c >= 'A' && c <= 'Z' ? static_cast<char>(c ^ (symx_bits("case", 1) << 5)) : c; } return s; }
void exactly(std::string const& s, kind k, std::size_t end) {
    auto t = scan(s);
    symx_assert(t.list.size() >= 1 && t.list[0].k == k && t.list[0].begin == 0 && t.list[0].end == end, "a key word is recognized in any letter case");
}
}
// every key word in every letter case, alone and before any byte
SYMX_ENTRY(words) {
    auto& w = words[symx_fork(symx_choice("word", 255 < word_count ? 255 : word_count))]; auto s = spelled(w); exactly(s, w.k, s.size());
    compare(s + symbolic(1)); symx_reach("done");
}
SYMX_ENTRY(words_rest) {
    auto& w = words[255 + symx_choice("word", word_count - 255)]; auto s = spelled(w); exactly(s, w.k, s.size());
    compare(s + symbolic(1)); symx_reach("done");
}
// no other text is a key word: any byte in place of any letter, or a shorter text
SYMX_ENTRY(near_words) {
    auto hi = symx_choice("half", 2); auto lo = symx_choice("word", 141); unsigned i = hi * 141 + lo; if (i >= word_count) return;
    auto& w = words[i]; auto s = spelled(w); auto p = symx_choice("place", w.size); s[p] = static_cast<char>(symx_byte("byte"));
    compare(s); symx_reach("done");
}
// the same, all letters of one case
SYMX_ENTRY(near_words_plain) {
    auto hi = symx_choice("half", 2); auto lo = symx_choice("word", 141); unsigned i = hi * 141 + lo; if (i >= word_count) return;
    auto& w = words[i]; std::string s { w.text, w.size }; if (symx_choice("case", 2)) for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c ^ 32); auto p = symx_choice("place", w.size); s[p] = static_cast<char>(symx_byte("byte"));
    compare(s); symx_reach("done");
}
SYMX_ENTRY(cut_words) {
    auto hi = symx_choice("half", 2); auto lo = symx_choice("word", 141); unsigned i = hi * 141 + lo; if (i >= word_count) return;
    auto& w = words[i]; auto s = spelled(w); auto n = symx_choice("size", w.size);
    compare(s.substr(0, n) + " " + s.substr(n)); symx_reach("done");
}
// every byte of a document belongs to exactly one token, comment or run of blanks
namespace {
void tiles(std::string const& s) {
    auto t = scan(s);
    bool ok = true, blanks = true; std::size_t at = 0, c = 0; bool open = false;
    auto gap = [&](std::size_t to) { for (; at < to && at < s.size(); ++at) { auto b = static_cast<unsigned char>(s[at]); blanks = blanks & ((b == 32) | (static_cast<unsigned char>(b - 9) <= 4)); } };
    for (auto& k : t.list) {
        while (c < t.comments.size() && t.comments[c].begin < k.begin) { ok &= t.comments[c].begin >= at && t.comments[c].end > t.comments[c].begin + 1; gap(t.comments[c].begin); at = t.comments[c].end; ++c; }
        ok &= k.begin >= at && k.end >= k.begin && k.end <= s.size(); gap(k.begin); at = k.end;
        if (k.k == kind::S_YYEOF) ok &= k.end == k.begin && at == s.size(); else ok &= k.end > k.begin;
        open = k.k == kind::S_UNCLOSED_BLOCK_COMMENT;
    }
    ok &= c == t.comments.size();
    symx_assert(ok, "tokens and comments are in order, inside the document and do not overlap");
    symx_assert(blanks, "only white space lies between tokens and comments");
    symx_assert(open || at == s.size(), "the scanner reads the whole document");
    symx_reach("done");
}
}
SYMX_ENTRY(tiles1) { tiles(symbolic(1)); }
SYMX_ENTRY(tiles2) { tiles(symbolic(2)); }
SYMX_ENTRY(tiles3) { tiles(symbolic(3)); }
SYMX_ENTRY(tiles4) { tiles(symbolic(4)); }
SYMX_ENTRY(tiles6) { tiles(symbolic(6, "a1'\"/*-\n ")); }
