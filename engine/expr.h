// Hash-consed bit-vector expressions with constant folding, lowered to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <deque>
#include <algorithm>
#include <chrono>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextv(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

enum Kind : uint8_t
{
    K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
    K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT,
    K_SEXT
};

struct VarSet
{
    std::vector<uint32_t> v;  // sorted
};

struct Expr
{
    Kind k;
    uint16_t w;
    bool undef;  // mentions an uninitialised-memory variable
    uint32_t id;
    Expr *a, *b, *c;
    u128 v;  // constant / var index / extract low bit
    VarSet* vars;
    Z3_ast bv, bo;
    uint32_t stamp;
    u128 val;
};

struct VarInfo
{
    std::string name;
    unsigned w;
    bool undef;
};

struct Model
{
    std::vector<u128> val;  // by var id, missing = 0
    u128 get(uint32_t i) const { return i < val.size() ? val[i] : 0; }
    void set(uint32_t i, u128 x)
    {
        if (i >= val.size()) val.resize(i + 1, 0);
        val[i] = x;
    }
};

class ExprPool
{
public:
    struct KeyHash
    {
        size_t operator()(const Expr* e) const
        {
            uint64_t h = e->k * 0x9E3779B97F4A7C15ull + e->w;
            auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
            mix((uint64_t)e->v);
            mix((uint64_t)(e->v >> 64));
            mix(e->a ? e->a->id + 1 : 0);
            mix(e->b ? e->b->id + 1 : 0);
            mix(e->c ? e->c->id + 1 : 0);
            return h;
        }
    };
    struct KeyEq
    {
        bool operator()(const Expr* x, const Expr* y) const
        {
            return x->k == y->k && x->w == y->w && x->v == y->v && x->a == y->a && x->b == y->b &&
                   x->c == y->c;
        }
    };
    std::unordered_set<Expr*, KeyHash, KeyEq> table;
    std::deque<Expr> arena;
    std::vector<VarInfo> vars;
    VarSet emptySet;
    uint32_t stamp = 0;
    Z3_context ctx = nullptr;

    Expr* mk(Kind k, unsigned w, u128 v, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr)
    {
        Expr t;
        t.k = k; t.w = w; t.v = v; t.a = a; t.b = b; t.c = c;
        auto it = table.find(&t);
        if (it != table.end()) return *it;
        t.id = arena.size();
        t.bv = t.bo = nullptr;
        t.vars = nullptr;
        t.stamp = 0;
        t.val = 0;
        t.undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
        if (k == K_VAR) t.undef = vars[(uint32_t)v].undef;
        arena.push_back(t);
        Expr* p = &arena.back();
        table.insert(p);
        return p;
    }
    Expr* cst(u128 v, unsigned w) { return mk(K_CONST, w, v & maskw(w)); }
    Expr* var(const std::string& name, unsigned w, bool undef)
    {
        vars.push_back({name, w, undef});
        return mk(K_VAR, w, vars.size() - 1);
    }
    static bool isC(const Expr* e) { return e->k == K_CONST; }
    bool isTrue(Expr* e) { return isC(e) && e->v == 1; }
    bool isFalse(Expr* e) { return isC(e) && e->v == 0; }

    static u128 fold(Kind k, unsigned w, u128 x, u128 y)
    {
        u128 m = maskw(w);
        switch (k)
        {
        case K_ADD: return (x + y) & m;
        case K_SUB: return (x - y) & m;
        case K_MUL: return (x * y) & m;
        case K_UDIV: return y == 0 ? m : (x / y) & m;
        case K_UREM: return y == 0 ? x : (x % y) & m;
        case K_SDIV:
        {
            i128 a = sextv(x, w), b = sextv(y, w);
            if (b == 0) return a < 0 ? 1 : m;
            if (b == -1) return (u128)(-(u128)a) & m;
            return (u128)(a / b) & m;
        }
        case K_SREM:
        {
            i128 a = sextv(x, w), b = sextv(y, w);
            if (b == 0) return x;
            if (b == -1) return 0;
            return (u128)(a % b) & m;
        }
        case K_AND: return x & y;
        case K_OR: return x | y;
        case K_XOR: return x ^ y;
        case K_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
        case K_LSHR: return y >= w ? 0 : (x >> (unsigned)y);
        case K_ASHR:
        {
            i128 a = sextv(x, w);
            unsigned s = y >= w ? w - 1 : (unsigned)y;
            return (u128)(a >> s) & m;
        }
        case K_EQ: return x == y;
        case K_ULT: return x < y;
        case K_ULE: return x <= y;
        case K_SLT: return sextv(x, w) < sextv(y, w);
        case K_SLE: return sextv(x, w) <= sextv(y, w);
        default: abort();
        }
    }

    Expr* mnot(Expr* e)  // bitwise not for width 1
    {
        return bin(K_XOR, e, cst(1, 1));
    }
    // number of low bits outside of which e is surely zero
    static unsigned bits(Expr* e, int depth = 6)
    {
        unsigned w = e->w;
        if (isC(e)) { unsigned n = 0; while (n < w && (e->v >> n)) n++; return n; }
        if (depth == 0) return w;
        switch (e->k)
        {
        case K_ZEXT: return bits(e->a, depth - 1);
        case K_ADD: return std::min(w, std::max(bits(e->a, depth - 1), bits(e->b, depth - 1)) + 1);
        case K_MUL: return std::min(w, bits(e->a, depth - 1) + bits(e->b, depth - 1));
        case K_AND: return std::min(bits(e->a, depth - 1), bits(e->b, depth - 1));
        case K_OR: case K_XOR: return std::max(bits(e->a, depth - 1), bits(e->b, depth - 1));
        case K_CONCAT: return isC(e->a) && e->a->v == 0 ? bits(e->b, depth - 1) : bits(e->a, depth - 1) + e->b->w;
        case K_UDIV: return isC(e->b) && e->b->v ? bits(e->a, depth - 1) : w;
        case K_UREM: return isC(e->b) && e->b->v ? std::min(bits(e->a, depth - 1), bits(e->b, depth - 1)) : w;
        case K_ITE: return std::max(bits(e->b, depth - 1), bits(e->c, depth - 1));
        default: return w;
        }
    }
    // unsigned division in the width its operands need
    Expr* narrow(Kind k, Expr* a, Expr* b)
    {
        unsigned n = std::max(bits(a), bits(b));
        if (n == 0 || n >= a->w || (isC(b) && b->v == 0)) return nullptr;
        Expr* r = zext(bin(k, extract(a, 0, n), extract(b, 0, n)), a->w);
        if (isC(b)) return r;
        return ite(bin(K_EQ, b, cst(0, b->w)), k == K_UDIV ? cst(maskw(a->w), a->w) : a, r);
    }
    // a - b with the summands that occur in both cancelled; null if there are none
    void terms(Expr* e, bool pos, std::vector<std::pair<Expr*, bool>>& out)
    {
        if ((e->k == K_ADD || e->k == K_SUB) && out.size() < 8)
        {
            terms(e->a, pos, out);
            terms(e->b, e->k == K_ADD ? pos : !pos, out);
        }
        else out.push_back({e, pos});
    }
    Expr* cancel(Expr* a, Expr* b)
    {
        bool sa = a->k == K_ADD || a->k == K_SUB, sb = b->k == K_ADD || b->k == K_SUB;
        if (!sa && !sb) return nullptr;
        std::vector<std::pair<Expr*, bool>> t;
        terms(a, true, t);
        size_t na = t.size();
        if (na >= 8) return nullptr;
        terms(b, false, t);
        bool any = false;
        for (size_t i = 0; i < t.size(); i++)
            for (size_t j = i + 1; j < t.size(); j++)
                if (t[i].first && t[i].first == t[j].first && t[i].second != t[j].second)
                {
                    t[i].first = t[j].first = nullptr;
                    any = true;
                    break;
                }
        if (!any) return nullptr;
        Expr* p = nullptr;
        for (auto& [e, pos] : t)
            if (e && pos) p = p ? bin(K_ADD, p, e) : e;
        if (!p) p = cst(0, a->w);
        for (auto& [e, pos] : t)
            if (e && !pos) p = bin(K_SUB, p, e);
        return p;
    }
    Expr* bin(Kind k, Expr* a, Expr* b)
    {
        bool cmp = k >= K_EQ && k <= K_SLE;
        unsigned w = a->w;
        if (isC(a) && isC(b)) return cst(fold(k, w, a->v, b->v), cmp ? 1 : w);
        // constants to the right for commutative ops
        if ((k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ))
        {
            if (isC(a)) std::swap(a, b);
            else if (!isC(b) && a->id > b->id) std::swap(a, b);
        }
        u128 m = maskw(w);
        switch (k)
        {
        case K_ADD:
            if (isC(b))
            {
                if (b->v == 0) return a;
                if (a->k == K_ADD && isC(a->b)) return bin(K_ADD, a->a, cst(a->b->v + b->v, w));
                if (a->k == K_SUB && isC(a->a)) return bin(K_SUB, cst(a->a->v + b->v, w), a->b);
            }
            // (x - y) + y
            if (a->k == K_SUB && a->b == b) return a->a;
            if (b->k == K_SUB && b->b == a) return b->a;
            if (a->k == K_ADD && isC(a->b)) return bin(K_ADD, bin(K_ADD, a->a, b), a->b);
            if (b->k == K_ADD && isC(b->b)) return bin(K_ADD, bin(K_ADD, a, b->a), b->b);
            break;
        case K_SUB:
            if (a == b) return cst(0, w);
            if (isC(b)) return bin(K_ADD, a, cst(-b->v, w));
            if (a->k == K_ADD && a->a == b) return a->b;
            if (a->k == K_ADD && a->b == b) return a->a;
            if (a->k == K_ADD && isC(a->b) && b->k == K_ADD && isC(b->b))
                return bin(K_ADD, bin(K_SUB, a->a, b->a), cst(a->b->v - b->b->v, w));
            if (b->k == K_ADD && isC(b->b)) return bin(K_ADD, bin(K_SUB, a, b->a), cst(-b->b->v, w));
            if (a->k == K_ADD && isC(a->b)) return bin(K_ADD, bin(K_SUB, a->a, b), a->b);
            if (Expr* r = cancel(a, b)) return r;
            break;
        case K_MUL:
            if (isC(b))
            {
                if (b->v == 0) return b;
                if (b->v == 1) return a;
                if ((b->v & (b->v - 1)) == 0)
                {
                    unsigned s = 0;
                    while (((b->v >> s) & 1) == 0) s++;
                    return bin(K_SHL, a, cst(s, w));
                }
            }
            break;
        case K_UDIV:
            if (isC(b) && b->v == 1) return a;
            if (isC(b) && a->k == K_ZEXT && b->v)
            {
                if (b->v > maskw(a->a->w)) return cst(0, w);
                return zext(bin(K_UDIV, a->a, cst(b->v, a->a->w)), w);
            }
            if (isC(b) && b->v && (b->v & (b->v - 1)) == 0)
            {
                unsigned s = 0;
                while (((b->v >> s) & 1) == 0) s++;
                return bin(K_LSHR, a, cst(s, w));
            }
            if (Expr* r = narrow(k, a, b)) return r;
            break;
        case K_UREM:
            if (isC(b) && a->k == K_ZEXT && b->v)
            {
                if (b->v > maskw(a->a->w)) return a;
                return zext(bin(K_UREM, a->a, cst(b->v, a->a->w)), w);
            }
            if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return bin(K_AND, a, cst(b->v - 1, w));
            if (Expr* r = narrow(k, a, b)) return r;
            break;
        case K_AND:
            if (a == b) return a;
            if (isC(b))
            {
                if (b->v == 0) return b;
                if (b->v == m) return a;
                if (a->k == K_ZEXT)
                {
                    u128 im = maskw(a->a->w);
                    if ((b->v & im) == im) return a;
                    return zext(bin(K_AND, a->a, cst(b->v, a->a->w)), w);
                }
                // low mask of power of two -> zext(extract)
                if (((b->v + 1) & b->v) == 0)
                {
                    unsigned n = 0;
                    while ((b->v >> n) & 1) n++;
                    return zext(extract(a, 0, n), w);
                }
            }
            if (w == 1 && isNotOf(a, b)) return cst(0, 1);
            break;
        case K_OR:
            if (a == b) return a;
            if (isC(b))
            {
                if (b->v == 0) return a;
                if (b->v == m) return b;
            }
            if (w == 1 && isNotOf(a, b)) return cst(1, 1);
            break;
        case K_XOR:
            if (a == b) return cst(0, w);
            if (isC(b))
            {
                if (b->v == 0) return a;
                if (a->k == K_XOR && isC(a->b)) return bin(K_XOR, a->a, cst(a->b->v ^ b->v, w));
                if (w == 1)
                {
                    // not(cmp)
                    switch (a->k)
                    {
                    case K_ULT: return bin(K_ULE, a->b, a->a);
                    case K_ULE: return bin(K_ULT, a->b, a->a);
                    case K_SLT: return bin(K_SLE, a->b, a->a);
                    case K_SLE: return bin(K_SLT, a->b, a->a);
                    case K_ITE:
                        if (isC(a->b) || isC(a->c)) return ite(a->a, mnot(a->b), mnot(a->c));
                        break;
                    default: break;
                    }
                }
            }
            break;
        case K_SHL: case K_LSHR: case K_ASHR:
            if (isC(b))
            {
                if (b->v == 0) return a;
                if (b->v >= w && k != K_ASHR) return cst(0, w);
                if (k == K_LSHR) return zext(extract(a, (unsigned)b->v, w - (unsigned)b->v), w);
                if (k == K_SHL) return concat(extract(a, 0, w - (unsigned)b->v), cst(0, (unsigned)b->v));
            }
            break;
        case K_EQ:
            if (a == b) return cst(1, 1);
            if (isC(b))
            {
                if (w == 1) return b->v ? a : mnot(a);
                if (a->k == K_ZEXT)
                {
                    if (b->v & ~maskw(a->a->w)) return cst(0, 1);
                    return bin(K_EQ, a->a, cst(b->v, a->a->w));
                }
                if (a->k == K_SEXT)
                {
                    u128 t = (u128)sextv(b->v & maskw(a->a->w), a->a->w) & m;
                    if (t != b->v) return cst(0, 1);
                    return bin(K_EQ, a->a, cst(b->v, a->a->w));
                }
                if (a->k == K_ADD && isC(a->b)) return bin(K_EQ, a->a, cst(b->v - a->b->v, w));
                if (a->k == K_XOR && isC(a->b)) return bin(K_EQ, a->a, cst(b->v ^ a->b->v, w));
                if (a->k == K_SUB && isC(a->a)) return bin(K_EQ, a->b, cst(a->a->v - b->v, w));
                if (a->k == K_SUB && b->v == 0) return bin(K_EQ, a->a, a->b);
                if (a->k == K_XOR && b->v == 0) return bin(K_EQ, a->a, a->b);
                if (a->k == K_ITE && (isC(a->b) || isC(a->c)))
                    return ite(a->a, bin(K_EQ, a->b, b), bin(K_EQ, a->c, b));
                if (a->k == K_CONCAT)
                    return bin(K_AND,
                               bin(K_EQ, a->a, cst(b->v >> a->b->w, a->a->w)),
                               bin(K_EQ, a->b, cst(b->v, a->b->w)));
            }
            else
            {
                if (a->k == K_ZEXT && b->k == K_ZEXT)
                {
                    unsigned mw = std::max(a->a->w, b->a->w);
                    return bin(K_EQ, zext(a->a, mw), zext(b->a, mw));
                }
                if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w)
                    return bin(K_EQ, a->a, b->a);
                if (a->k == K_ADD && b->k == K_ADD && a->b == b->b) return bin(K_EQ, a->a, b->a);
                if (a->k == K_ADD && isC(a->b) && a->a == b) return cst(0, 1);
                if (b->k == K_ADD && isC(b->b) && b->a == a) return cst(0, 1);
                if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w)
                    return bin(K_AND, bin(K_EQ, a->a, b->a), bin(K_EQ, a->b, b->b));
            }
            break;
        case K_ULT:
            if (a == b) return cst(0, 1);
            if (isC(b) && b->v == 0) return cst(0, 1);
            if (isC(b) && b->v == 1) return bin(K_EQ, a, cst(0, w));
            if (isC(a) && a->v == m) return cst(0, 1);
            if (isC(a) && a->v == 0) return mnot(bin(K_EQ, b, cst(0, w)));
            if (a->k == K_ZEXT && isC(b))
            {
                if (b->v > maskw(a->a->w)) return cst(1, 1);
                return bin(K_ULT, a->a, cst(b->v, a->a->w));
            }
            if (b->k == K_ZEXT && isC(a))
            {
                if (a->v >= maskw(b->a->w)) return cst(0, 1);
                return bin(K_ULT, cst(a->v, b->a->w), b->a);
            }
            if (a->k == K_ZEXT && b->k == K_ZEXT)
            {
                unsigned mw = std::max(a->a->w, b->a->w);
                return bin(K_ULT, zext(a->a, mw), zext(b->a, mw));
            }
            break;
        case K_ULE:
            if (a == b) return cst(1, 1);
            if (isC(b) && b->v == m) return cst(1, 1);
            if (isC(b) && b->v == 0) return bin(K_EQ, a, b);
            if (isC(a) && a->v == 0) return cst(1, 1);
            if (isC(a) && a->v == 1) return mnot(bin(K_EQ, b, cst(0, w)));
            if (a->k == K_ZEXT && isC(b))
            {
                if (b->v >= maskw(a->a->w)) return cst(1, 1);
                return bin(K_ULE, a->a, cst(b->v, a->a->w));
            }
            if (b->k == K_ZEXT && isC(a))
            {
                if (a->v > maskw(b->a->w)) return cst(0, 1);
                return bin(K_ULE, cst(a->v, b->a->w), b->a);
            }
            if (a->k == K_ZEXT && b->k == K_ZEXT)
            {
                unsigned mw = std::max(a->a->w, b->a->w);
                return bin(K_ULE, zext(a->a, mw), zext(b->a, mw));
            }
            break;
        case K_SLT:
            if (a == b) return cst(0, 1);
            if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return bin(K_SLT, a->a, b->a);
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return bin(K_ULT, a->a, b->a);
            if (a->k == K_ZEXT && isC(b))
            {
                if (sextv(b->v, w) <= 0) return cst(0, 1);
                return bin(K_ULT, a, b);
            }
            if (b->k == K_ZEXT && isC(a))
            {
                if (sextv(a->v, w) < 0) return cst(1, 1);
                return bin(K_ULT, a, b);
            }
            break;
        case K_SLE:
            if (a == b) return cst(1, 1);
            if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return bin(K_SLE, a->a, b->a);
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return bin(K_ULE, a->a, b->a);
            if (a->k == K_ZEXT && isC(b))
            {
                if (sextv(b->v, w) < 0) return cst(0, 1);
                return bin(K_ULE, a, b);
            }
            if (b->k == K_ZEXT && isC(a))
            {
                if (sextv(a->v, w) <= 0) return cst(1, 1);
                return bin(K_ULE, a, b);
            }
            break;
        default: break;
        }
        return mk(k, cmp ? 1 : w, 0, a, b);
    }
    bool isNotOf(Expr* a, Expr* b)
    {
        if (a->k == K_XOR && isC(a->b) && a->b->v == 1 && a->a == b) return true;
        if (b->k == K_XOR && isC(b->b) && b->b->v == 1 && b->a == a) return true;
        if (a->k == K_ULT && b->k == K_ULE && a->a == b->b && a->b == b->a) return true;
        if (b->k == K_ULT && a->k == K_ULE && a->a == b->b && a->b == b->a) return true;
        if (a->k == K_SLT && b->k == K_SLE && a->a == b->b && a->b == b->a) return true;
        if (b->k == K_SLT && a->k == K_SLE && a->a == b->b && a->b == b->a) return true;
        return false;
    }
    Expr* ite(Expr* c, Expr* a, Expr* b)
    {
        if (isC(c)) return c->v ? a : b;
        if (a == b) return a;
        if (c->k == K_XOR && isC(c->b) && c->w == 1) return ite(c->a, b, a);
        if (a->w == 1)
        {
            if (isC(a) && isC(b)) return a->v ? c : mnot(c);
            if (isC(a)) return a->v ? bin(K_OR, c, b) : bin(K_AND, mnot(c), b);
            if (isC(b)) return b->v ? bin(K_OR, mnot(c), a) : bin(K_AND, c, a);
        }
        return mk(K_ITE, a->w, 0, c, a, b);
    }
    Expr* extract(Expr* e, unsigned lo, unsigned n)
    {
        if (lo == 0 && n == e->w) return e;
        if (isC(e)) return cst(e->v >> lo, n);
        switch (e->k)
        {
        case K_EXTRACT: return extract(e->a, lo + (unsigned)e->v, n);
        case K_CONCAT:
        {
            unsigned bw = e->b->w;
            if (lo >= bw) return extract(e->a, lo - bw, n);
            if (lo + n <= bw) return extract(e->b, lo, n);
            return concat(extract(e->a, 0, lo + n - bw), extract(e->b, lo, bw - lo));
        }
        case K_ZEXT:
        {
            unsigned iw = e->a->w;
            if (lo >= iw) return cst(0, n);
            if (lo + n <= iw) return extract(e->a, lo, n);
            return zext(extract(e->a, lo, iw - lo), n);
        }
        case K_SEXT:
            if (lo + n <= e->a->w) return extract(e->a, lo, n);
            break;
        case K_ITE:
            if (isC(e->b) || isC(e->c)) return ite(e->a, extract(e->b, lo, n), extract(e->c, lo, n));
            break;
        case K_AND: case K_OR: case K_XOR:
            return bin(e->k, extract(e->a, lo, n), extract(e->b, lo, n));
        case K_ADD: case K_SUB: case K_MUL:
            if (lo == 0) return bin(e->k, extract(e->a, 0, n), extract(e->b, 0, n));
            break;
        default: break;
        }
        return mk(K_EXTRACT, n, lo, e);
    }
    Expr* concat(Expr* hi, Expr* lo)
    {
        if (isC(hi) && isC(lo)) return cst((hi->v << lo->w) | lo->v, hi->w + lo->w);
        if (isC(hi) && hi->v == 0) return zext(lo, hi->w + lo->w);
        if (hi->k == K_ZEXT) return zext(concat(hi->a, lo), hi->w + lo->w);
        if (isC(lo) && hi->k == K_CONCAT && isC(hi->b)) return concat(hi->a, concat(hi->b, lo));
        if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w)
            return extract(hi->a, (unsigned)lo->v, hi->w + lo->w);
        if (hi->k == K_CONCAT && hi->b->k == K_EXTRACT && lo->k == K_EXTRACT &&
            hi->b->a == lo->a && hi->b->v == lo->v + lo->w)
            return concat(hi->a, extract(lo->a, (unsigned)lo->v, hi->b->w + lo->w));
        return mk(K_CONCAT, hi->w + lo->w, 0, hi, lo);
    }
    Expr* zext(Expr* e, unsigned w)
    {
        if (e->w == w) return e;
        if (isC(e)) return cst(e->v, w);
        if (e->k == K_ZEXT) return zext(e->a, w);
        return mk(K_ZEXT, w, 0, e);
    }
    Expr* sext(Expr* e, unsigned w)
    {
        if (e->w == w) return e;
        if (isC(e)) return cst((u128)sextv(e->v, e->w), w);
        if (e->k == K_ZEXT) return zext(e->a, w);
        if (e->k == K_SEXT) return sext(e->a, w);
        return mk(K_SEXT, w, 0, e);
    }

    VarSet* varsOf(Expr* e)
    {
        if (e->vars) return e->vars;
        if (e->k == K_CONST) return e->vars = &emptySet;
        if (e->k == K_VAR)
        {
            auto* s = new VarSet;
            s->v.push_back((uint32_t)e->v);
            return e->vars = s;
        }
        VarSet* s = varsOf(e->a);
        if (e->b) s = uni(s, varsOf(e->b));
        if (e->c) s = uni(s, varsOf(e->c));
        return e->vars = s;
    }
    VarSet* uni(VarSet* x, VarSet* y)
    {
        if (x == y || y->v.empty()) return x;
        if (x->v.empty()) return y;
        std::vector<uint32_t> r;
        std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
        if (r.size() == x->v.size()) return x;
        if (r.size() == y->v.size()) return y;
        auto* s = new VarSet;
        s->v = std::move(r);
        return s;
    }

    u128 eval(Expr* e, const Model& m)
    {
        ++stamp;
        return ev(e, m);
    }
    u128 ev(Expr* e, const Model& m)
    {
        if (e->k == K_CONST) return e->v;
        if (e->k == K_VAR) return m.get((uint32_t)e->v) & maskw(e->w);
        if (e->stamp == stamp) return e->val;
        u128 r;
        switch (e->k)
        {
        case K_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
        case K_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
        case K_EXTRACT: r = (ev(e->a, m) >> (unsigned)e->v) & maskw(e->w); break;
        case K_ZEXT: r = ev(e->a, m); break;
        case K_SEXT: r = (u128)sextv(ev(e->a, m), e->a->w) & maskw(e->w); break;
        default: r = fold(e->k, e->a->w, ev(e->a, m), ev(e->b, m));
        }
        e->stamp = stamp;
        e->val = r;
        return r;
    }

    // ---- Z3 lowering
    // (the context is reference counted: every intermediate term must be kept before the next one is made)
    std::unordered_map<unsigned, Z3_sort> sorts;
    Z3_sort sortOf(unsigned w)
    {
        auto it = sorts.find(w);
        if (it != sorts.end()) return it->second;
        Z3_sort r = Z3_mk_bv_sort(ctx, w);
        Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, r));
        return sorts[w] = r;
    }
    Z3_ast num(uint64_t v, unsigned w) { return keep(Z3_mk_unsigned_int64(ctx, v, sortOf(w))); }
    Z3_ast keep(Z3_ast a)
    {
        Z3_inc_ref(ctx, a);
        return a;
    }
    Z3_ast toBool(Expr* e)
    {
        if (e->bo) return e->bo;
        Z3_ast r;
        switch (e->k)
        {
        case K_CONST: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case K_EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)) : Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
        case K_ULT: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
        case K_ULE: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SLT: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SLE: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
        case K_AND: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case K_OR: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case K_XOR:
            if (isC(e->b)) r = e->b->v ? Z3_mk_not(ctx, toBool(e->a)) : toBool(e->a);
            else r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b));
            break;
        case K_ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c)); break;
        default: r = Z3_mk_eq(ctx, toBV(e), num(1, 1));
        }
        return e->bo = keep(r);
    }
    Z3_ast toBV(Expr* e)
    {
        if (e->bv) return e->bv;
        Z3_ast r;
        switch (e->k)
        {
        case K_CONST:
            if (e->w <= 64) r = num((uint64_t)e->v, e->w);
            else
                r = Z3_mk_concat(ctx,
                                 num((uint64_t)(e->v >> 64), e->w - 64),
                                 num((uint64_t)e->v, 64));
            break;
        case K_VAR:
        {
            std::string n = "v" + std::to_string((uint64_t)e->v);
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), sortOf(e->w));
            break;
        }
        case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE:
            r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1));
            break;
        case K_ADD: r = Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SUB: r = Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b)); break;
        case K_MUL: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
        case K_UDIV: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SDIV: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
        case K_UREM: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SREM: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
        case K_AND: r = Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b)); break;
        case K_OR: r = Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b)); break;
        case K_XOR: r = Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SHL: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
        case K_LSHR: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
        case K_ASHR: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
        case K_ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->c)); break;
        case K_CONCAT: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
        case K_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, toBV(e->a)); break;
        case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
        case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
        default: abort();
        }
        return e->bv = keep(r);
    }
    std::string str(Expr* e, int depth = 6)
    {
        static const char* n[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext"};
        if (e->k == K_CONST) { char b[64]; snprintf(b, 64, "%llu", (unsigned long long)e->v); return b; }
        if (e->k == K_VAR) return vars[(uint32_t)e->v].name;
        if (depth == 0) return "...";
        std::string r = std::string("(") + n[e->k];
        if (e->k == K_EXTRACT) r += "[" + std::to_string((unsigned)e->v) + "+" + std::to_string(e->w) + "]";
        for (Expr* x : {e->a, e->b, e->c}) if (x) r += " " + str(x, depth - 1);
        return r + ")";
    }
};
