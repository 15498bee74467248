// Hash-consed bit-vector expressions with exact value tables for expressions over a
// single symbolic byte, and their translation to Z3.
#pragma once
#include <z3.h>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

enum K : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, EQ, ULT, ULE, SLT, SLE, ITE, EXTRACT, CONCAT, ZEXT, SEXT, LUT, UMULO };

typedef std::array<uint64_t, 4> SymSet; // up to 256 symbols

struct Expr {
    K k; uint8_t w; uint8_t lo;      // lo: extract offset
    int32_t s1;                      // -1: constant, >= 0: only this (<= 8 bit) symbol, -2: several or wide
    uint32_t id;
    uint64_t c;                      // CONST value / SYM id
    Expr *a, *b, *x;
    uint64_t* tab;                   // 256 values when s1 >= 0
    SymSet syms;
    Z3_ast z;
    uint64_t ev; uint32_t epoch;
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t) v : (int64_t) (v << (64 - w)) >> (64 - w); }

inline uint64_t evalop(K k, unsigned w, unsigned aw, uint64_t a, uint64_t b, uint64_t x, unsigned lo, unsigned bw) {
    // aw: width of first operand
    uint64_t m = maskw(w);
    switch (k) {
        case ADD: return (a + b) & m;
        case SUB: return (a - b) & m;
        case MUL: return (a * b) & m;
        case UDIV: return b ? (a / b) & m : m;
        case UREM: return b ? (a % b) & m : a;
        case SDIV: { if (!b) return m; int64_t p = sx(a, w), q = sx(b, w); if (q == -1) return (0 - a) & m; return (uint64_t) (p / q) & m; }
        case SREM: { if (!b) return a; int64_t p = sx(a, w), q = sx(b, w); if (q == -1) return 0; return (uint64_t) (p % q) & m; }
        case SHL: return b >= w ? 0 : (a << b) & m;
        case LSHR: return b >= w ? 0 : (a & m) >> b;
        case ASHR: return (uint64_t) (sx(a, w) >> (b >= w ? (w == 64 ? 63 : w - 1) : b)) & m;
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sx(a, aw) < sx(b, aw);
        case SLE: return sx(a, aw) <= sx(b, aw);
        case ITE: return a ? b : x;
        case EXTRACT: return (a >> lo) & m;
        case CONCAT: return ((a << bw) | b) & m;
        case ZEXT: return a;
        case SEXT: return (uint64_t) sx(a, aw) & m;
        case UMULO: { unsigned __int128 p = (unsigned __int128) a * b; return (p >> aw) != 0; }
        default: abort();
    }
}

struct Pool {
    Z3_context ctx {};
    std::vector<Expr*> all;
    struct Key { uint64_t h; };
    std::unordered_multimap<uint64_t, Expr*> tbl;
    uint32_t epoch = 0;

    static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }

    Expr* konst(uint64_t v, unsigned w) { return intern(CONST, w, 0, v & maskw(w), nullptr, nullptr, nullptr, nullptr); }
    Expr* symbol(unsigned id, unsigned w) { return intern(SYM, w, 0, id, nullptr, nullptr, nullptr, nullptr); }

    Expr* intern(K k, unsigned w, unsigned lo, uint64_t c, Expr* a, Expr* b, Expr* x, uint64_t const* tab) {
        uint64_t h = mix(mix(mix(mix(mix(mix(k, w), lo), c), (uint64_t) a), (uint64_t) b), (uint64_t) x);
        if (k == LUT) for (int i = 0; i < 256; ++i) h = mix(h, tab[i]);
        auto r = tbl.equal_range(h);
        for (auto i = r.first; i != r.second; ++i) { Expr* e = i->second; if (e->k == k && e->w == w && e->lo == lo && e->c == c && e->a == a && e->b == b && e->x == x && (k != LUT || !memcmp(e->tab, tab, 2048))) return e; }
        Expr* e = new Expr {};
        e->k = k; e->w = (uint8_t) w; e->lo = (uint8_t) lo; e->c = c; e->a = a; e->b = b; e->x = x;
        e->id = (uint32_t) all.size();
        if (k == CONST) e->s1 = -1;
        else if (k == SYM) {
            e->syms[c >> 6] |= 1ULL << (c & 63);
            if (w <= 8) { e->s1 = (int) c; e->tab = new uint64_t[256]; for (int i = 0; i < 256; ++i) e->tab[i] = (uint64_t) i & maskw(w); } else e->s1 = -2;
        } else {
            int s = -1;
            for (Expr* o : { a, b, x }) if (o) { for (int i = 0; i < 4; ++i) e->syms[i] |= o->syms[i];
                if (o->s1 == -1) continue; if (s == -1) s = o->s1; else if (s != o->s1) s = -2; }
            e->s1 = s;
            if (s >= 0) {
                e->tab = new uint64_t[256];
                if (k == LUT) memcpy(e->tab, tab, 2048);
                else for (int i = 0; i < 256; ++i) {
                    auto v = [&](Expr* o) -> uint64_t { return !o ? 0 : o->k == CONST ? o->c : o->tab[i]; };
                    e->tab[i] = evalop(k, w, a->w, v(a), v(b), v(x), lo, b ? b->w : 0);
                }
                bool same = true; for (int i = 1; i < 256 && same; ++i) same = e->tab[i] == e->tab[0];
                if (same) { uint64_t v = e->tab[0]; delete[] e->tab; delete e; return konst(v, w); }
            }
        }
        all.push_back(e); tbl.emplace(h, e);
        return e;
    }
    Expr* lut(Expr* sym, unsigned w, uint64_t const* tab) { bool same = true; for (int i = 1; i < 256 && same; ++i) same = tab[i] == tab[0]; if (same) return konst(tab[0], w); return intern(LUT, w, 0, 0, sym, nullptr, nullptr, tab); }
    Expr* bnot(Expr* e) { if (e->k == CONST) return konst(!e->c, 1); if (e->k == XOR && e->w == 1 && e->b->k == CONST && e->b->c == 1) return e->a; return mk(XOR, 1, e, konst(1, 1)); }

    Expr* extract(Expr* a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        if (a->k == CONST) return konst(a->c >> lo, w);
        if (a->s1 < 0) {
            if (a->k == EXTRACT) return extract(a->a, lo + a->lo, w);
            if (a->k == CONCAT) { if (lo + w <= a->b->w) return extract(a->b, lo, w); if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w); }
            if (a->k == ZEXT) { if (lo >= a->a->w) return konst(0, w); if (lo + w <= a->a->w) return extract(a->a, lo, w); }
            if (a->k == SEXT && lo + w <= a->a->w) return extract(a->a, lo, w);
            if (lo == 0 && (a->k == ADD || a->k == SUB || a->k == MUL || a->k == AND || a->k == OR || a->k == XOR)) return mk(a->k, w, extract(a->a, 0, w), extract(a->b, 0, w));
            if (a->k == ITE && (a->b->k == CONST || a->x->k == CONST)) return mk(ITE, w, a->a, extract(a->b, lo, w), extract(a->x, lo, w));
        }
        return intern(EXTRACT, w, lo, 0, a, nullptr, nullptr, nullptr);
    }
    Expr* concat(Expr* hi, Expr* lo) {
        unsigned w = hi->w + lo->w;
        if (hi->k == CONST && lo->k == CONST) return konst((hi->c << lo->w) | lo->c, w);
        if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return extract(hi->a, lo->lo, w);
        if (hi->k == CONST && hi->c == 0) return mk(ZEXT, w, lo);
        return intern(CONCAT, w, 0, 0, hi, lo, nullptr, nullptr);
    }
    Expr* mk(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* x = nullptr) {
        bool ac = a->k == CONST, bc = b && b->k == CONST;
        if (ac && (!b || bc) && (!x || x->k == CONST)) return konst(evalop(k, w, a->w, a->c, b ? b->c : 0, x ? x->c : 0, 0, b ? b->w : 0), w);
        switch (k) {
            case ADD: if (ac) std::swap(a, b), std::swap(ac, bc); if (bc && b->c == 0) return a;
                if (bc && a->k == ADD && a->b->k == CONST) return mk(ADD, w, a->a, konst(a->b->c + b->c, w)); break;
            case SUB: if (bc) return mk(ADD, w, a, konst(0 - b->c, w)); if (a == b) return konst(0, w);
                if (a->k == ADD && a->a == b) return a->b; if (a->k == ADD && b->k == ADD && a->a == b->a) return mk(SUB, w, a->b, b->b); break;
            case MUL: if (ac) std::swap(a, b), std::swap(ac, bc); if (bc && b->c == 1) return a; if (bc && b->c == 0) return konst(0, w); break;
            case AND: if (ac) std::swap(a, b), std::swap(ac, bc); if (bc && b->c == maskw(w)) return a; if (bc && b->c == 0) return b; if (a == b) return a;
                if (bc && a->k == ZEXT && (b->c & maskw(a->a->w)) == maskw(a->a->w)) return a; break;
            case OR: if (ac) std::swap(a, b), std::swap(ac, bc); if (bc && b->c == 0) return a; if (bc && b->c == maskw(w)) return b; if (a == b) return a; break;
            case XOR: if (ac) std::swap(a, b), std::swap(ac, bc); if (bc && b->c == 0) return a; if (a == b) return konst(0, w);
                if (bc && a->k == XOR && a->b->k == CONST) return mk(XOR, w, a->a, konst(a->b->c ^ b->c, w)); break;
            case SHL: case LSHR: case ASHR: if (bc && b->c == 0) return a; break;
            case EQ: if (ac) std::swap(a, b), std::swap(ac, bc); if (a == b) return konst(1, 1);
                if (a->w == 1 && bc) return b->c ? a : bnot(a);
                if (bc) {
                    if (a->k == ZEXT) return (b->c >> a->a->w) ? konst(0, 1) : mk(EQ, 1, a->a, konst(b->c, a->a->w));
                    if (a->k == SEXT) return (uint64_t) (sx(b->c & maskw(a->a->w), a->a->w) & maskw(a->w)) != b->c ? konst(0, 1) : mk(EQ, 1, a->a, konst(b->c, a->a->w));
                    if (a->k == CONCAT) return mk(AND, 1, mk(EQ, 1, a->a, konst(b->c >> a->b->w, a->a->w)), mk(EQ, 1, a->b, konst(b->c, a->b->w)));
                    if (a->k == ADD && a->b->k == CONST) return mk(EQ, 1, a->a, konst(b->c - a->b->c, a->w));
                }
                [[fallthrough]];
            case ULT: case ULE: case SLT: case SLE:
                if (bc && a->k == ITE && a->s1 < 0 && (a->b->k == CONST || a->x->k == CONST)) return mk(ITE, 1, a->a, mk(k, 1, a->b, b), mk(k, 1, a->x, b));
                if (ac && b->k == ITE && b->s1 < 0 && (b->b->k == CONST || b->x->k == CONST)) return mk(ITE, 1, b->a, mk(k, 1, a, b->b), mk(k, 1, a, b->x));
                if (k == ULT && bc && a->k == ZEXT && a->s1 < 0) return (b->c >> a->a->w) ? konst(1, 1) : mk(ULT, 1, a->a, konst(b->c, a->a->w));
                if (k == ULT && bc && b->c == 0) return konst(0, 1);
                if (k == ULE && ac && a->c == 0) return konst(1, 1);
                break;
            case ITE: if (ac) return a->c ? b : x; if (b == x) return b;
                if (w == 1) { if (bc && x->k == CONST) return b->c ? a : bnot(a);
                    if (bc) return b->c ? mk(OR, 1, a, x) : mk(AND, 1, bnot(a), x);
                    if (x->k == CONST) return x->c ? mk(OR, 1, bnot(a), b) : mk(AND, 1, a, b); }
                break;
            case ZEXT: if (a->w == w) return a; if (a->k == ZEXT) return mk(ZEXT, w, a->a); break;
            case SEXT: if (a->w == w) return a; if (a->k == ZEXT && a->a->w < a->w) return mk(ZEXT, w, a->a); break;
            default: break;
        }
        return intern(k, w, 0, 0, a, b, x, nullptr);
    }

    uint64_t eval(Expr* e, std::vector<uint64_t> const& m) { ++epoch; return ev(e, m); }
    uint64_t ev(Expr* e, std::vector<uint64_t> const& m) {
        if (e->k == CONST) return e->c;
        if (e->k == SYM) return e->c < m.size() ? m[e->c] & maskw(e->w) : 0;
        if (e->s1 >= 0) return e->tab[(size_t) e->s1 < m.size() ? (m[e->s1] & 255) : 0];
        if (e->epoch == epoch) return e->ev;
        uint64_t r;
        if (e->k == ITE) r = ev(e->a, m) ? ev(e->b, m) : ev(e->x, m);
        else r = evalop(e->k, e->w, e->a->w, ev(e->a, m), e->b ? ev(e->b, m) : 0, 0, e->lo, e->b ? e->b->w : 0);
        e->epoch = epoch; e->ev = r;
        return r;
    }

    // ---- Z3
    Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
    Z3_ast bit(Z3_ast p) { return Z3_mk_ite(ctx, p, num(1, 1), num(0, 1)); }
    /// byte-set membership of a symbol as ranges
    Z3_ast in_ranges(Z3_ast s, unsigned w, bool const* in) {
        std::vector<Z3_ast> ors; unsigned n = 1U << w;
        for (unsigned i = 0; i < n;) { if (!in[i]) { ++i; continue; } unsigned j = i; while (j + 1 < n && in[j + 1]) ++j;
            if (i == j) ors.push_back(Z3_mk_eq(ctx, s, num(i, w)));
            else { Z3_ast ps[2] = { Z3_mk_bvuge(ctx, s, num(i, w)), Z3_mk_bvule(ctx, s, num(j, w)) }; ors.push_back(Z3_mk_and(ctx, 2, ps)); }
            i = j + 1; }
        if (ors.empty()) return Z3_mk_false(ctx);
        return ors.size() == 1 ? ors[0] : Z3_mk_or(ctx, (unsigned) ors.size(), ors.data());
    }
    Z3_ast z(Expr* e) {
        if (e->z) return e->z;
        Z3_ast r;
        switch (e->k) {
            case CONST: r = num(e->c, e->w); break;
            case SYM: { std::string n = "s" + std::to_string(e->c) + "_" + std::to_string(e->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w)); break; }
            case ADD: r = Z3_mk_bvadd(ctx, z(e->a), z(e->b)); break;
            case SUB: r = Z3_mk_bvsub(ctx, z(e->a), z(e->b)); break;
            case MUL: r = Z3_mk_bvmul(ctx, z(e->a), z(e->b)); break;
            case UDIV: r = Z3_mk_bvudiv(ctx, z(e->a), z(e->b)); break;
            case SDIV: r = Z3_mk_bvsdiv(ctx, z(e->a), z(e->b)); break;
            case UREM: r = Z3_mk_bvurem(ctx, z(e->a), z(e->b)); break;
            case SREM: r = Z3_mk_bvsrem(ctx, z(e->a), z(e->b)); break;
            case SHL: r = Z3_mk_bvshl(ctx, z(e->a), z(e->b)); break;
            case LSHR: r = Z3_mk_bvlshr(ctx, z(e->a), z(e->b)); break;
            case ASHR: r = Z3_mk_bvashr(ctx, z(e->a), z(e->b)); break;
            case AND: r = Z3_mk_bvand(ctx, z(e->a), z(e->b)); break;
            case OR: r = Z3_mk_bvor(ctx, z(e->a), z(e->b)); break;
            case XOR: r = Z3_mk_bvxor(ctx, z(e->a), z(e->b)); break;
            case EQ: r = bit(Z3_mk_eq(ctx, z(e->a), z(e->b))); break;
            case ULT: r = bit(Z3_mk_bvult(ctx, z(e->a), z(e->b))); break;
            case ULE: r = bit(Z3_mk_bvule(ctx, z(e->a), z(e->b))); break;
            case SLT: r = bit(Z3_mk_bvslt(ctx, z(e->a), z(e->b))); break;
            case SLE: r = bit(Z3_mk_bvsle(ctx, z(e->a), z(e->b))); break;
            case ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, z(e->a), num(1, 1)), z(e->b), z(e->x)); break;
            case EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1U, e->lo, z(e->a)); break;
            case CONCAT: r = Z3_mk_concat(ctx, z(e->a), z(e->b)); break;
            case ZEXT: r = Z3_mk_zero_ext(ctx, (unsigned) (e->w - e->a->w), z(e->a)); break;
            case SEXT: r = Z3_mk_sign_ext(ctx, (unsigned) (e->w - e->a->w), z(e->a)); break;
            case UMULO: r = bit(Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, z(e->a), z(e->b), false))); break;
            case LUT: {
                std::unordered_map<uint64_t, std::vector<int>> g; for (int i = 0; i < 256; ++i) g[e->tab[i]].push_back(i);
                uint64_t big = 0; size_t n = 0; for (auto& p : g) if (p.second.size() > n || (p.second.size() == n && p.first < big)) { n = p.second.size(); big = p.first; }
                Z3_ast s = z(e->a); r = num(big, e->w);
                for (auto& p : g) if (p.first != big) { bool in[256] = {}; for (int i : p.second) in[i] = true; r = Z3_mk_ite(ctx, in_ranges(s, e->a->w, in), num(p.first, e->w), r); }
                break; }
            default: abort();
        }
        e->z = r;
        return r;
    }
    Z3_ast zb(Expr* e) { return Z3_mk_eq(ctx, z(e), num(1, 1)); }
};
