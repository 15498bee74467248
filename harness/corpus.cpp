// Every reviewed statement of the corpus, with free letter case, blanks, names and string bytes.
#include "common.h"
using namespace h;
namespace {
#define CASE(s, t) { s, t },
constexpr variant query[] = {
#include "cases/query.inc"
};
constexpr variant table[] = {
#include "cases/table.inc"
};
constexpr variant literal[] = {
#include "cases/literal.inc"
};
constexpr variant type[] = {
#include "cases/type.inc"
};
constexpr variant function[] = {
#include "cases/function.inc"
};
constexpr variant dml[] = {
#include "cases/dml.inc"
};
constexpr variant ddl[] = {
#include "cases/ddl.inc"
};
constexpr variant predicate[] = {
#include "cases/predicate.inc"
};
#undef CASE
template<std::size_t N> void all(variant const (&l)[N]) { auto& v = choose("statement", l); expect(v.sql, v.tree, "the statement is understood as written"); symx_reach("done"); }
}
SYMX_ENTRY(query) { all(::query); }
SYMX_ENTRY(table) { all(::table); }
SYMX_ENTRY(literal) { all(::literal); }
SYMX_ENTRY(type) { all(::type); }
SYMX_ENTRY(function) { all(::function); }
SYMX_ENTRY(dml) { all(::dml); }
SYMX_ENTRY(ddl) { all(::ddl); }
SYMX_ENTRY(predicate) { all(::predicate); }
