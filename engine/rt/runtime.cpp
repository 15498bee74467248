// C/C++ runtime pieces that live in shared libraries natively; compiled to bitcode
// so that the executor sees their code.
#include <cstddef>
#include <cstdint>
#include <cerrno>
#include <iostream>
#include <stdexcept>
#include <new>
#include <string>
#include <cstdarg>
#include <cstdio>
#include <typeinfo>
#include <pthread.h>
#include <mutex>
#include <unordered_map>
#include <list>
#include <memory>
#include <optional>
#include <functional>
#include <cxxabi.h>
template class std::basic_string<char>;
namespace std { istream cin { nullptr }; ostream cout { nullptr }; ostream cerr { nullptr }; ostream clog { nullptr }; }
extern "C" {
void symx_fail(char const*) __attribute__((noreturn));
static int the_errno;
int* __errno_location() { return &the_errno; }
static unsigned char const ctab[257] = {
#define S 1   // space
#define D 2   // digit
#define U 4   // upper
#define L 8   // lower
#define X 16  // hex letter
#define P 32  // punct
#define C 64  // cntrl
C,C,C,C,C,C,C,C,C,C|S,C|S,C|S,C|S,C|S,C,C, C,C,C,C,C,C,C,C,C,C,C,C,C,C,C,C,
S,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P, D,D,D,D,D,D,D,D,D,D,P,P,P,P,P,P,
P,U|X,U|X,U|X,U|X,U|X,U|X,U,U,U,U,U,U,U,U,U, U,U,U,U,U,U,U,U,U,U,U,P,P,P,P,P,
P,L|X,L|X,L|X,L|X,L|X,L|X,L,L,L,L,L,L,L,L,L, L,L,L,L,L,L,L,L,L,L,L,P,P,P,P,C };
#define CT(n, m) int n(int c) { return (unsigned) c < 256 ? (ctab[c] & (m)) : 0; }
CT(isspace, S) CT(isdigit, D) CT(isalpha, U|L) CT(isalnum, U|L|D) CT(isupper, U) CT(islower, L) CT(isxdigit, D|X) CT(ispunct, P) CT(iscntrl, C)
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int isblank(int c) { return c == 32 || c == 9; }
int toupper(int c) { return (unsigned) c < 256 && (ctab[c] & L) ? c - 32 : c; }
int tolower(int c) { return (unsigned) c < 256 && (ctab[c] & U) ? c + 32 : c; }
#undef S
#undef D
#undef U
#undef L
#undef X
#undef P
#undef C
__attribute__((noinline)) static int digit_of(char c) { unsigned char u = (unsigned char) c; if (u >= '0' && u <= '9') return u - '0'; if (u >= 'a' && u <= 'z') return u - 'a' + 10; if (u >= 'A' && u <= 'Z') return u - 'A' + 10; return 99; }
static unsigned long conv(char const* s, char** end, int base, bool* neg, bool* over, bool* any) {
    char const* p = s; while (isspace((unsigned char) *p)) ++p;
    *neg = false; if (*p == '-') { *neg = true; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit_of(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; *over = false; *any = false;
    for (;; ++p) { int d = digit_of(*p); if (d >= base) break; *any = true; unsigned long m = ~0UL / (unsigned long) base; if (v > m || v * (unsigned long) base > ~0UL - (unsigned long) d) *over = true; v = v * (unsigned long) base + (unsigned long) d; }
    if (end) *end = const_cast<char*>(*any ? p : s);
    return v;
}
unsigned long strtoul(char const* s, char** e, int b) { bool n, o, a; unsigned long v = conv(s, e, b, &n, &o, &a); if (o) { the_errno = ERANGE; return ~0UL; } return n ? 0 - v : v; }
unsigned long long strtoull(char const* s, char** e, int b) { return strtoul(s, e, b); }
long strtol(char const* s, char** e, int b) { bool n, o, a; unsigned long v = conv(s, e, b, &n, &o, &a); unsigned long lim = n ? (1UL << 63) : (1UL << 63) - 1; if (o || v > lim) { the_errno = ERANGE; return n ? (long) (1UL << 63) : (long) ((1UL << 63) - 1); } return n ? (long) (0 - v) : (long) v; }
long long strtoll(char const* s, char** e, int b) { return strtol(s, e, b); }
int strcmp(char const* a, char const* b) { while (*a && *a == *b) { ++a; ++b; } return (int) (unsigned char) *a - (int) (unsigned char) *b; }
int strncmp(char const* a, char const* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int) (unsigned char) *a - (int) (unsigned char) *b; if (!*a) return 0; } return 0; }
int strcasecmp(char const* a, char const* b) { while (*a && tolower((unsigned char) *a) == tolower((unsigned char) *b)) { ++a; ++b; } return tolower((unsigned char) *a) - tolower((unsigned char) *b); }
int strncasecmp(char const* a, char const* b, size_t n) { for (; n; --n, ++a, ++b) { int d = tolower((unsigned char) *a) - tolower((unsigned char) *b); if (d) return d; if (!*a) return 0; } return 0; }
static int const* lt() { static int t[384]; static bool init = false; if (!init) { for (int i = -128; i < 256; ++i) t[i + 128] = i >= 0 ? tolower(i) : i; init = true; } return t + 128; }
static int const* ut() { static int t[384]; static bool init = false; if (!init) { for (int i = -128; i < 256; ++i) t[i + 128] = i >= 0 ? toupper(i) : i; init = true; } return t + 128; }
int const** __ctype_tolower_loc() { static int const* p; p = lt(); return &p; }
int const** __ctype_toupper_loc() { static int const* p; p = ut(); return &p; }
unsigned short const** __ctype_b_loc() {
    static unsigned short t[384]; static unsigned short const* p; static bool init = false;
    if (!init) { for (int i = 0; i < 256; ++i) t[i + 128] = (unsigned short) ((isupper(i) ? 256 : 0) | (islower(i) ? 512 : 0) | (isalpha(i) ? 1024 : 0) | (isdigit(i) ? 2048 : 0) | (isxdigit(i) ? 4096 : 0) | (isspace(i) ? 8192 : 0) | (isprint(i) ? 16384 : 0) | (isgraph(i) ? 32768 : 0) | (isblank(i) ? 1 : 0) | (iscntrl(i) ? 2 : 0) | (ispunct(i) ? 4 : 0) | (isalnum(i) ? 8 : 0)); init = true; }
    p = t + 128; return &p;
}
int abs(int v) { return v < 0 ? -v : v; } long labs(long v) { return v < 0 ? -v : v; } long long llabs(long long v) { return v < 0 ? -v : v; }

char* strchr(char const* s, int c) { for (;; ++s) { if (*s == (char) c) return const_cast<char*>(s); if (!*s) return nullptr; } }
char* strrchr(char const* s, int c) { char* r = nullptr; for (;; ++s) { if (*s == (char) c) r = const_cast<char*>(s); if (!*s) return r; } }
char* strstr(char const* a, char const* b) { for (;; ++a) { size_t i = 0; while (b[i] && a[i] == b[i]) ++i; if (!b[i]) return const_cast<char*>(a); if (!*a) return nullptr; } }
size_t strspn(char const* s, char const* k) { size_t i = 0; for (; s[i] && strchr(k, s[i]); ++i) {} return i; }
size_t strcspn(char const* s, char const* k) { size_t i = 0; for (; s[i] && !strchr(k, s[i]); ++i) {} return i; }
char* strpbrk(char const* s, char const* k) { s += strcspn(s, k); return *s ? const_cast<char*>(s) : nullptr; }
char* strcpy(char* d, char const* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, char const* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, char const* s) { char* r = d; while (*d) ++d; strcpy(d, s); return r; }
char* strncat(char* d, char const* s, size_t n) { char* r = d; while (*d) ++d; size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; d[i] = 0; return r; }
size_t strnlen(char const* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
int vsnprintf(char* b, size_t n, char const* f, va_list a) {
    size_t k = 0; auto put = [&](char c) { if (k + 1 < n) b[k] = c; ++k; };
    for (; *f; ++f) {
        if (*f != '%') { put(*f); continue; }
        ++f; bool left = false, zero = false, plus = false; for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else break; }
        int w = 0; if (*f == '*') { w = va_arg(a, int); ++f; } else for (; *f >= '0' && *f <= '9'; ++f) w = w * 10 + (*f - '0');
        int pr = -1; if (*f == '.') { ++f; pr = 0; if (*f == '*') { pr = va_arg(a, int); ++f; } else for (; *f >= '0' && *f <= '9'; ++f) pr = pr * 10 + (*f - '0'); }
        int l = 0; while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { l += *f == 'h' ? -1 : *f == 'l' ? 1 : 2; ++f; }
        char t[32]; char const* s = t; size_t m = 0; bool neg = false;
        switch (*f) {
            case '%': t[m++] = '%'; break;
            case 'c': t[m++] = (char) va_arg(a, int); break;
            case 's': s = va_arg(a, char const*); m = pr >= 0 ? strnlen(s, (size_t) pr) : strnlen(s, ~(size_t) 0); zero = false; break;
            case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
                unsigned long v; bool sg = *f == 'd' || *f == 'i';
                if (sg) { long x = l > 0 ? va_arg(a, long) : (long) va_arg(a, int); if (l == -1) x = (short) x; else if (l == -2) x = (signed char) x; neg = x < 0; v = neg ? 0 - (unsigned long) x : (unsigned long) x; }
                else { v = l > 0 ? va_arg(a, unsigned long) : (unsigned long) va_arg(a, unsigned); if (l == -1) v = (unsigned short) v; else if (l == -2) v = (unsigned char) v; }
                unsigned base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10; char const* ds = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; size_t p = 32;
                int nd = 0; while (v != 0 || nd < (pr < 0 ? 1 : pr)) { t[--p] = ds[v % base]; v /= base; ++nd; }
                s = t + p; m = 32 - p; if (pr >= 0) zero = false; break;
            }
            default: symx_fail("vsnprintf: unsupported conversion");
        }
        size_t len = m + (neg || plus); size_t pad = (size_t) w > len ? (size_t) w - len : 0;
        if (!left && !zero) for (; pad; --pad) put(' ');
        if (neg) put('-'); else if (plus) put('+');
        if (!left) for (; pad; --pad) put('0');
        for (size_t i = 0; i < m; ++i) put(s[i]);
        for (; pad; --pad) put(' ');
    }
    if (n) b[k < n ? k : n - 1] = 0;
    return (int) k;
}
int snprintf(char* b, size_t n, char const* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int vsprintf(char* b, char const* f, va_list a) { return vsnprintf(b, 1UL << 30, f, a); }
int sprintf(char* b, char const* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, 1UL << 30, f, a); va_end(a); return r; }
int putc(int c, FILE*) { return c; } int printf(char const*, ...) { return 0; } int fprintf(FILE*, char const*, ...) { return 0; } int puts(char const*) { return 0; } int fputs(char const*, FILE*) { return 0; } int fflush(FILE*) { return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { if (*o == 0) { *o = 2; f(); } return 0; }
int* symx_unused_int() { return nullptr; }
}
namespace std {
logic_error::logic_error(char const*) {} logic_error::logic_error(string const&) {} logic_error::logic_error(logic_error const&) noexcept {} logic_error::~logic_error() noexcept {} char const* logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(char const*) {} runtime_error::runtime_error(string const&) {} runtime_error::runtime_error(runtime_error const&) noexcept {} runtime_error::~runtime_error() noexcept {} char const* runtime_error::what() const noexcept { return "runtime_error"; }
runtime_error::runtime_error(runtime_error&&) noexcept {} logic_error::logic_error(logic_error&&) noexcept {}
invalid_argument::invalid_argument(char const* s) : logic_error(s) {} invalid_argument::invalid_argument(string const& s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
domain_error::domain_error(char const* s) : logic_error(s) {} domain_error::domain_error(string const& s) : logic_error(s) {} domain_error::~domain_error() noexcept {}
out_of_range::out_of_range(char const* s) : logic_error(s) {} out_of_range::out_of_range(string const& s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
length_error::length_error(char const* s) : logic_error(s) {} length_error::length_error(string const& s) : logic_error(s) {} length_error::~length_error() noexcept {}
overflow_error::overflow_error(char const* s) : runtime_error(s) {} overflow_error::overflow_error(string const& s) : runtime_error(s) {} overflow_error::~overflow_error() noexcept {}
range_error::range_error(char const* s) : runtime_error(s) {} range_error::range_error(string const& s) : runtime_error(s) {} range_error::~range_error() noexcept {}
exception::~exception() noexcept {} char const* exception::what() const noexcept { return "exception"; }
bad_exception::~bad_exception() noexcept {} char const* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} char const* bad_alloc::what() const noexcept { return "bad_alloc"; }
void __throw_logic_error(char const* s) { throw logic_error(s); }
void __throw_length_error(char const* s) { throw length_error(s); }
void __throw_out_of_range(char const* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(char const* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(char const* s) { throw invalid_argument(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
bad_function_call::~bad_function_call() noexcept {} char const* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
template<> istream& operator>>(istream& i, string& s) {
    s.clear(); i.skip_();
    for (;;) { auto v = i.peek(); if (v == EOF) break; char c = (char) v; if (c == ' ' || (c >= 9 && c <= 13)) break; s.push_back(c); i.rdbuf()->sgetn(&c, 1); }
    if (s.empty()) i.setstate(ios_base::failbit);
    return i;
}
template<> istream& getline(istream& i, string& s, char d) {
    s.clear(); bool any = false;
    for (;;) { char c; if (!i.rdbuf() || i.rdbuf()->sgetn(&c, 1) != 1) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } any = true; if (c == d) break; s.push_back(c); }
    return i;
}
__cow_string::__cow_string() {} __cow_string::~__cow_string() {}
void terminate() noexcept { symx_fail("std::terminate"); }
// red-black tree (unbalanced is fine for the executor; order and links are what matters)
struct _Rb_tree_node_base; 
}
#include <bits/stl_tree.h>
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec_(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); }
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec_(x); }
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) noexcept { return dec_(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
    auto* root = h._M_parent; auto* lm = h._M_left; auto* rm = h._M_right;
    _Rb_tree_node_base* nlm = lm == z ? inc(z) : lm; _Rb_tree_node_base* nrm = rm == z ? (lm == z ? &h : dec_(z)) : rm;
    auto rep = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) { if (root == o) root = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (!z->_M_left) rep(z, z->_M_right);
    else if (!z->_M_right) rep(z, z->_M_left);
    else {
        auto* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { rep(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        rep(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    h._M_parent = root; if (root) { h._M_left = nlm; h._M_right = nrm; } else { h._M_left = &h; h._M_right = &h; }
    return z;
}
// one hash for all texts: lookups compare the texts themselves
size_t _Hash_bytes(void const*, size_t, size_t) { return 0; }
size_t _Fnv_hash_bytes(void const*, size_t, size_t) { return 0; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = k * 2 + 1; _M_next_resize = ~(size_t) 0; return k; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n, size_t e, size_t i) const { return n == 1 && e + i > 0 ? pair<bool, size_t> { true, 13 } : pair<bool, size_t> { false, 0 }; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { auto* a = x._M_next; x._M_next = y._M_next; y._M_next = a; a = x._M_prev; x._M_prev = y._M_prev; y._M_prev = a; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
bad_cast::~bad_cast() noexcept {} char const* bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} char const* bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} char const* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_array_new_length::~bad_array_new_length() noexcept {} char const* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_runtime_error(char const* s) { throw runtime_error(s); }
void __throw_overflow_error(char const* s) { throw overflow_error(s); }
void __throw_range_error(char const* s) { throw range_error(s); }
void __throw_domain_error(char const* s) { throw domain_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
type_info::~type_info() {}
__thread void* __once_callable; __thread void (*__once_call)();
}
extern "C" {
void __once_proxy() { std::__once_call(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
}
// dynamic_cast over the Itanium class information
extern "C" { extern void* _ZTVN10__cxxabiv117__class_type_infoE[]; extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[]; extern void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[]; }
namespace {
struct cast_found { void const* p; int n; };
void cast_walk(std::type_info const* t, char const* obj, std::type_info const* dst, bool pub, void const* src, std::type_info const* srct, cast_found& down, cast_found& any, bool& src_public, void const* in_dst, cast_found& holder) {
    if (t == dst && pub) { if (any.p != obj) { any.p = obj; ++any.n; } }
    if (t == dst) in_dst = obj;
    if (obj == src && t == srct) { if (pub) src_public = true; if (in_dst) { if (holder.p != in_dst) { holder.p = in_dst; ++holder.n; } } }
    void* vt = *reinterpret_cast<void* const*>(t);
    if (vt == &_ZTVN10__cxxabiv120__si_class_type_infoE[2]) {
        cast_walk(static_cast<__cxxabiv1::__si_class_type_info const*>(t)->__base_type, obj, dst, pub, src, srct, down, any, src_public, in_dst, holder);
    } else if (vt == &_ZTVN10__cxxabiv121__vmi_class_type_infoE[2]) {
        auto* v = static_cast<__cxxabiv1::__vmi_class_type_info const*>(t);
        for (unsigned i = 0; i < v->__base_count; ++i) {
            long of = v->__base_info[i].__offset_flags; long off = of >> 8;
            if (of & 1) off = *reinterpret_cast<long const*>(*reinterpret_cast<char const* const*>(obj) + off);
            cast_walk(v->__base_info[i].__base_type, obj + off, dst, pub && (of & 2), src, srct, down, any, src_public, in_dst, holder);
        }
    }
}
}
extern "C" void* __dynamic_cast(void const* src, __cxxabiv1::__class_type_info const* srct, __cxxabiv1::__class_type_info const* dst, std::ptrdiff_t) {
    char const* vp = *static_cast<char const* const*>(src);
    char const* whole = static_cast<char const*>(src) + reinterpret_cast<long const*>(vp)[-2];
    auto* wt = reinterpret_cast<std::type_info const* const*>(vp)[-1];
    cast_found down { nullptr, 0 }, any { nullptr, 0 }, holder { nullptr, 0 }; bool sp = false;
    cast_walk(wt, whole, dst, true, src, srct, down, any, sp, nullptr, holder);
    if (holder.n == 1) return const_cast<void*>(holder.p);
    if (any.n == 1 && sp) return const_cast<void*>(any.p);
    return nullptr;
}
