// Operation alphabet and reference model for maps and sets.
#pragma once
#include "types.h"

#include <tuple>

namespace assoc
{
// reference model: ordered by Ord (or by insertion when Ord::ORDERED is false)
struct Asc { static constexpr bool ORDERED = true; static bool lt(u16 a, u16 b) { return a < b; } };
struct Desc { static constexpr bool ORDERED = true; static bool lt(u16 a, u16 b) { return b < a; } };
struct Ins { static constexpr bool ORDERED = false; static bool lt(u16, u16) { return false; } };

template <class Ord>
struct Model
{
#ifdef VF_BIG
    static constexpr size_t MAX = VF_BIG + 8;
#else
    static constexpr size_t MAX = 16;
#endif
    u16 k[MAX], v[MAX];
    size_t n = 0;
    size_t find(u16 x) const
    {
        for (size_t i = 0; i < n; i++)
            if (k[i] == x) return i;
        return n;
    }
    bool has(u16 x) const { return find(x) != n; }
    size_t lower(u16 x) const
    {
        size_t i = 0;
        while (i < n && Ord::lt(k[i], x)) i++;
        return i;
    }
    size_t upper(u16 x) const
    {
        size_t i = 0;
        while (i < n && !Ord::lt(x, k[i])) i++;
        return i;
    }
    size_t add(u16 x, u16 y)
    {
        size_t p = Ord::ORDERED ? lower(x) : n;
        for (size_t i = n; i > p; i--) { k[i] = k[i - 1]; v[i] = v[i - 1]; }
        k[p] = x;
        v[p] = y;
        n++;
        return p;
    }
    void erase(size_t p, size_t c = 1)
    {
        for (size_t i = p; i + c < n; i++) { k[i] = k[i + c]; v[i] = v[i + c]; }
        n -= c;
    }
};

// keys: u16 itself, or a type made from it; enum keys specialise this
template <class K> struct Key
{
    static K mk(u16 x) { return K(x); }
    static u16 arg(u16 x) { return x; }
#ifdef VF_BIG  // an even key is present, an odd one is not; only keys at which narrow integers wrap
    static u16 sym() { return static_cast<u16>(2 * (vf::pick(0, 2, "k") * 127 + vf::pick(0, 1, "plus") * 2) + vf::pick(0, 1, "odd")); }
#else
    static u16 sym() { return vf::sym<u16>("k"); }
#endif
};
template <class K> K mk(u16 x) { return Key<K>::mk(x); }
template <class K> auto emk(u16 x) { return Key<K>::arg(x); }
template <class K> u16 symkey() { return Key<K>::sym(); }

template <class C> concept IsMap = requires { typename C::mapped_type; };
template <class C> constexpr bool IS_MAP = IsMap<C>;

template <class C, class R>
u16 keyOf(const R& r) { if constexpr (IS_MAP<C>) return val(r.first); else return val(r); }
template <class C, class R>
u16 valOf(const R& r) { if constexpr (IS_MAP<C>) return val(r.second); else return 0; }

template <class C>
auto nth(C& c, size_t p) { auto it = c.begin(); for (size_t i = 0; i < p; i++) ++it; return it; }
template <class C>
auto cnth(const C& c, size_t p) { auto it = c.cbegin(); for (size_t i = 0; i < p; i++) ++it; return it; }

// it denotes the p-th entry of the model (or end)
template <class Ord, class C, class It>
void at_pos(C& c, const Model<Ord>& m, const It& it, size_t p, const char* id)
{
    if (p == m.n) { vf::check(it == c.end(), id); return; }
    vf::check(!(it == c.end()), id);
    if (it == c.end()) return;
    vf::check(it == nth(c, p), id);
    vf::check(keyOf<C>(*it) == m.k[p], id);
    if constexpr (IS_MAP<C>) vf::check(valOf<C>(*it) == m.v[p], id);
}

template <class Ord, class C>
void agree(C& c, const Model<Ord>& m)
{
    using K = typename C::key_type;
    const C& q = c;
    vf::check(q.size() == m.n, "size");
    vf::check(q.empty() == (m.n == 0), "empty");
    if constexpr (requires { is_full(q); }) vf::check(is_full(q) == (m.n == C::static_max_size()), "is_full");
    size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i)
    {
        vf::check(i < m.n, "iteration visits too many entries");
        if (i >= m.n) break;
        vf::check(keyOf<C>(*it) == m.k[i], "key order");
        if constexpr (IS_MAP<C>) vf::check(valOf<C>(*it) == m.v[i], "mapped value");
        if constexpr (IS_MAP<C>) { vf::check(val(it->second) == m.v[i], "arrow"); vf::obs(m.v[i]); }
        vf::obs(m.k[i]);
    }
    vf::check(i == m.n, "iteration visits too few entries");
    i = 0;
    for (auto it = q.cbegin(); it != q.cend(); ++it, ++i)
    {
        vf::check(i < m.n && keyOf<C>(*it) == m.k[i], "const iteration");
        if (i >= m.n) break;
    }
    vf::check(i == m.n, "const iteration visits too few entries");
    if constexpr (Ord::ORDERED)
    {
        auto it = q.cend();
        for (i = m.n; i-- > 0;)
        {
            --it;
            vf::check(keyOf<C>(*it) == m.k[i], "backward iteration");
        }
        vf::check(it == q.cbegin(), "backward iteration reaches begin");
        i = m.n;
        for (auto r = q.crbegin(); r != q.crend(); ++r)
        {
            vf::check(i > 0, "reverse iteration visits too many entries");
            if (i == 0) break;
            i--;
            vf::check(keyOf<C>(*r) == m.k[i], "reverse iteration");
        }
        vf::check(i == 0, "reverse iteration visits too few entries");
        i = m.n;
        for (auto r = c.rbegin(); r != c.rend(); ++r)
        {
            vf::check(i > 0, "reverse iteration visits too many entries");
            if (i == 0) break;
            i--;
            vf::check(keyOf<C>(*r) == m.k[i], "reverse iteration");
        }
        vf::check(i == 0, "reverse iteration visits too few entries");
    }
#ifdef VF_BIG
    for (i = 0; i < m.n; i += i > 250 ? 1 : 25)
#else
    for (i = 0; i < m.n; i++)
#endif
    {
        K k(mk<K>(m.k[i]));
        vf::check(q.contains(k), "present key found");
        if constexpr (IS_MAP<C>) vf::check(val(q.at(k)) == m.v[i], "at");
    }
}

template <class Ord, class C>
void lookups(C& c, const Model<Ord>& m, u16 x)
{
    using K = typename C::key_type;
    const C& q = c;
    K k(mk<K>(x));
    size_t p = m.find(x);
    at_pos(c, m, c.find(k), p, "find");
    {
        auto it = q.find(k);
        vf::check((it == q.end()) == (p == m.n), "find const");
        if (p != m.n) vf::check(keyOf<C>(*it) == x, "find const");
    }
    vf::check(q.contains(k) == (p != m.n), "contains");
    if constexpr (requires { q.count(k); }) vf::check(q.count(k) == (p != m.n ? 1u : 0u), "count");
    if constexpr (IS_MAP<C>)
        if (p != m.n)
        {
            vf::check(val(q.at(k)) == m.v[p] && val(c.at(k)) == m.v[p], "at");
            vf::check(&q.at(k) == &c.at(k), "at");
        }
    if constexpr (requires { c.lower_bound(k); })
    {
        size_t l = m.lower(x), u = m.upper(x);
        at_pos(c, m, c.lower_bound(k), l, "lower_bound");
        at_pos(c, m, c.upper_bound(k), u, "upper_bound");
        vf::check(q.lower_bound(k) == cnth(q, l), "lower_bound const");
        vf::check(q.upper_bound(k) == cnth(q, u), "upper_bound const");
        auto er = c.equal_range(k);
        at_pos(c, m, er.first, l, "equal_range");
        at_pos(c, m, er.second, u, "equal_range");
        auto ec = q.equal_range(k);
        vf::check(ec.first == cnth(q, l) && ec.second == cnth(q, u), "equal_range const");
    }
    vf_cover("lookup");
    if (p == m.n) vf_cover("lookup absent"); else vf_cover("lookup present");
}

enum Op
{
    INSERT_L, INSERT_R, INSERT_HINT, INSERT_RANGE, INSERT_IL, IOA_L, IOA_R, IOA_HINT, TRY_L, TRY_R, TRY_HINT, EMPLACE, EMPLACE_PAIR, EMPLACE_HINT,
    SUB_L, SUB_R, WRITE, ERASE_KEY, ERASE_POS, ERASE_RANGE, ERASE_IF, CLEAR, LOOKUP, NOPS
};

template <class Ord, class C>
void apply(C& c, Model<Ord>& m, size_t op)
{
    using K = typename C::key_type;
    constexpr bool MAP = IS_MAP<C>;
    constexpr size_t CAP = C::static_max_size();
    auto result = [&](auto&& r, size_t p, bool fresh, const char* id)
    {
        vf::check(r.second == fresh, id);
        at_pos(c, m, r.first, p, id);
    };
    auto room = [&](bool present) { if (!present && m.n == CAP) vf_end(); };
#ifdef VF_BIG
    auto hint = [&] { return cnth(c, m.n / 2); };
#else
    auto hint = [&] { return cnth(c, vf::pick(0, m.n, "hint")); };
#endif
    switch (op)
    {
    case INSERT_L: case INSERT_R: case INSERT_HINT: case IOA_L: case IOA_R: case IOA_HINT: case TRY_L: case TRY_R: case TRY_HINT:
    case EMPLACE: case EMPLACE_PAIR: case EMPLACE_HINT: case SUB_L: case SUB_R:
    {
        if (!MAP && (op == IOA_L || op == IOA_R || op == IOA_HINT || op == TRY_L || op == TRY_R || op == TRY_HINT || op == EMPLACE_PAIR || op == SUB_L || op == SUB_R)) vf_end();
        if (MAP && op == INSERT_HINT) vf_end();
        u16 x = symkey<K>(), y = MAP ? vf::sym<u16>("v") : 0;
        size_t p = m.find(x);
        bool present = p != m.n;
        room(present);
        // model
        bool assigns = op == IOA_L || op == IOA_R || op == IOA_HINT || op == SUB_L || op == SUB_R;
        auto upd = [&](u16 nv) { if (!present) p = m.add(x, nv); else if (assigns) m.v[p] = nv; };
        if (present) vf_cover("insert present key"); else vf_cover("insert new key");
        if constexpr (MAP)
        {
            using V = typename C::mapped_type;
            using P = typename C::value_type;
            switch (op)
            {
            case INSERT_L: { const P pr{mk<K>(x), V(y)}; auto r = c.insert(pr); upd(y); result(r, p, !present, "insert"); vf::check(val(pr.first) == x && val(pr.second) == y, "argument unchanged"); break; }
            case INSERT_R: { auto r = c.insert(P{mk<K>(x), V(y)}); upd(y); result(r, p, !present, "insert(&&)"); break; }
            case IOA_L: { const K k(mk<K>(x)); const V v(y); auto r = c.insert_or_assign(k, v); upd(y); result(r, p, !present, "insert_or_assign"); vf::check(val(k) == x && val(v) == y, "argument unchanged"); break; }
            case IOA_R: { auto r = c.insert_or_assign(mk<K>(x), V(y)); upd(y); result(r, p, !present, "insert_or_assign(&&)"); break; }
            case IOA_HINT:
            {
                auto h = hint();
                const K k(mk<K>(x));
                if (vf::coin()) { auto it = c.insert_or_assign(h, k, V(y)); upd(y); at_pos(c, m, it, p, "insert_or_assign hint"); }
                else { auto it = c.insert_or_assign(h, mk<K>(x), V(y)); upd(y); at_pos(c, m, it, p, "insert_or_assign hint"); }
                break;
            }
            case TRY_L: { const K k(mk<K>(x)); auto r = c.try_emplace(k, y); upd(y); result(r, p, !present, "try_emplace"); vf::check(val(k) == x, "argument unchanged"); break; }
            case TRY_R:
            {
                V v(y);
                auto r = c.try_emplace(mk<K>(x), std::move(v));
                upd(y);
                result(r, p, !present, "try_emplace(&&)");
                if (present) vf::check(val(v) == y, "failed try_emplace does not move from its arguments");
                break;
            }
            case TRY_HINT:
            {
                auto h = hint();
                const K k(mk<K>(x));
                if (vf::coin()) { auto r = c.try_emplace(h, k, y); upd(y); result(r, p, !present, "try_emplace hint"); }
                else { auto r = c.try_emplace(h, mk<K>(x), y); upd(y); result(r, p, !present, "try_emplace hint"); }
                break;
            }
            case EMPLACE: { auto r = c.emplace(mk<K>(x), y); upd(y); result(r, p, !present, "emplace"); break; }
            case EMPLACE_PAIR:
            {
                if (vf::coin()) { auto r = c.emplace(std::pair<K, V>{mk<K>(x), V(y)}); upd(y); result(r, p, !present, "emplace pair"); }
                else { auto r = c.emplace(std::piecewise_construct, std::forward_as_tuple(emk<K>(x)), std::forward_as_tuple(y)); upd(y); result(r, p, !present, "emplace piecewise"); }
                break;
            }
            case EMPLACE_HINT: { auto h = hint(); auto r = c.emplace_hint(h, mk<K>(x), y); upd(y); result(r, p, !present, "emplace_hint"); break; }
            case SUB_L: case SUB_R:
            {
                bool wr = vf::coin("write");
                K k(mk<K>(x));
                V& ref = op == SUB_L ? c[static_cast<const K&>(k)] : c[std::move(k)];
                if (op == SUB_L) vf::check(val(k) == x, "argument unchanged");
                if (!present) { vf::check(val(ref) == val(V{}), "subscript default"); upd(val(V{})); }
                else vf::check(val(ref) == m.v[p], "subscript");
                if (wr) { ref = V(y); m.v[p] = y; }
                vf_cover("subscript");
                break;
            }
            }
        }
        else
        {
            switch (op)
            {
            case INSERT_L: { const K k(mk<K>(x)); auto r = c.insert(k); upd(0); result(r, p, !present, "insert"); vf::check(val(k) == x, "argument unchanged"); break; }
            case INSERT_R: { auto r = c.insert(mk<K>(x)); upd(0); result(r, p, !present, "insert(&&)"); break; }
            case INSERT_HINT:
            {
                auto h = hint();
                const K k(mk<K>(x));
                if (vf::coin()) { auto it = c.insert(h, k); upd(0); at_pos(c, m, it, p, "insert hint"); }
                else { auto it = c.insert(h, mk<K>(x)); upd(0); at_pos(c, m, it, p, "insert hint"); }
                break;
            }
            case EMPLACE: { auto r = c.emplace(emk<K>(x)); upd(0); result(r, p, !present, "emplace"); break; }
            case EMPLACE_HINT:
            {
                auto h = hint();
                auto r = c.emplace_hint(h, emk<K>(x));
                upd(0);
                if constexpr (requires { r.second; }) result(r, p, !present, "emplace_hint");
                else at_pos(c, m, r, p, "emplace_hint");
                break;
            }
            }
        }
        break;
    }
    case INSERT_RANGE: case INSERT_IL:
    {
        size_t k = op == INSERT_IL ? 2 : vf::pick(0, 2, "len");
        u16 x[2], y[2];
        bool il = op == INSERT_IL;
        for (size_t i = 0; i < k; i++) { x[i] = symkey<K>(); y[i] = MAP ? vf::sym<u16>("v") : 0; }
        for (size_t i = 0; i < k; i++)
            if (!m.has(x[i])) { room(false); m.add(x[i], y[i]); }
        if constexpr (MAP)
        {
            using V = typename C::mapped_type;
            using P = std::pair<K, V>;
            using PC = typename C::value_type;
            if (il) c.insert({PC{mk<K>(x[0]), V(y[0])}, PC{mk<K>(x[1]), V(y[1])}});
            else
            {
                P src[2];
                for (size_t i = 0; i < k; i++) src[i] = P{mk<K>(x[i]), V(y[i])};
                if (vf::coin()) c.insert(static_cast<const P*>(src), static_cast<const P*>(src) + k);
                else { Stream<P> s{src, k}; c.insert(InIt<P>{&s}, InIt<P>{}); }
            }
        }
        else
        {
            if (il) c.insert({mk<K>(x[0]), mk<K>(x[1])});
            else
            {
                K src[2];
                for (size_t i = 0; i < k; i++) src[i] = mk<K>(x[i]);
                if (vf::coin()) c.insert(static_cast<const K*>(src), static_cast<const K*>(src) + k);
                else { Stream<K> s{src, k}; c.insert(InIt<K>{&s}, InIt<K>{}); }
            }
        }
        vf_cover("insert range");
        break;
    }
    case WRITE:
        if (!MAP || !m.n) vf_end();
        if constexpr (MAP)
        {
            using V = typename C::mapped_type;
            size_t p = vf::pick(0, m.n - 1, "p");
            u16 y = vf::sym<u16>("v");
            switch (vf::pick(0, 2, "how"))
            {
            case 0: c.at(mk<K>(m.k[p])) = V(y); break;
            case 1: nth(c, p)->second = V(y); break;
            case 2: c.find(mk<K>(m.k[p]))->second = V(y); break;
            }
            m.v[p] = y;
            vf_cover("write through");
        }
        break;
    case ERASE_KEY:
    {
        u16 x = symkey<K>();
        size_t p = m.find(x);
        auto r = c.erase(mk<K>(x));
        vf::check(r == (p != m.n ? 1u : 0u), "erase count");
        if (p != m.n) { m.erase(p); vf_cover("erase key"); }
        break;
    }
    case ERASE_POS:
    {
        if (!m.n) vf_end();
        size_t p = vf::pick(0, m.n - 1, "p");
        if (vf::coin()) { auto it = c.erase(cnth(c, p)); m.erase(p); at_pos(c, m, it, p, "erase returns the next entry"); }
        else { auto it = c.erase(nth(c, p)); m.erase(p); at_pos(c, m, it, p, "erase returns the next entry"); }
        vf_cover("erase position");
        break;
    }
    case ERASE_RANGE:
    {
        size_t p = vf::pick(0, m.n, "p"), q = vf::pick(p, m.n, "q");
        auto it = c.erase(cnth(c, p), cnth(c, q));
        m.erase(p, q - p);
        at_pos(c, m, it, p, "erase range returns the next entry");
        vf_cover("erase range");
        break;
    }
    case ERASE_IF:
    {
        auto r = erase_if(c, [](const auto& e) { return (keyOf<C>(e) & 1) != 0; });
        size_t k = 0;
        for (size_t i = 0; i < m.n;)
            if (m.k[i] & 1) { m.erase(i); k++; }
            else i++;
        vf::check(r == k, "erase_if count");
        vf_cover("erase_if");
        break;
    }
    case CLEAR: c.clear(); m.n = 0; vf_cover("clear"); break;
    case LOOKUP: lookups(c, m, symkey<K>()); break;
    }
}

#ifdef VF_BIG
// nearly full large container, filled in three orders; concrete keys
template <class Ord, class C>
void build(C& c, Model<Ord>& m, size_t, size_t, size_t extra)
{
    using K = typename C::key_type;
    constexpr size_t CAP = C::static_max_size() < VF_BIG ? C::static_max_size() : VF_BIG;
    const size_t sizes[] = {255, 256, CAP};
    const size_t n = sizes[vf::pick(0, 2, "n")];
    const size_t ord = vf::pick(0, extra, "order");
    for (size_t i = 0; i < n; i++)
    {
        const u16 x = static_cast<u16>(2 * (ord == 0 ? i : ord == 1 ? n - 1 - i : (i * 97) % n)), y = static_cast<u16>(i * 3);
        m.add(x, y);
        if constexpr (IS_MAP<C>) c.insert({mk<K>(x), typename C::mapped_type(y)});
        else c.insert(mk<K>(x));
    }
}
#else
// n entries inserted in any order of their (symbolic) keys, of which up to `extra` are erased again
template <class Ord, class C>
void build(C& c, Model<Ord>& m, size_t lo, size_t hi, size_t extra)
{
    using K = typename C::key_type;
    size_t n = vf::pick(lo, hi, "n");
    for (size_t i = 0; i < n; i++)
    {
        u16 x = symkey<K>(), y = IS_MAP<C> ? vf::sym<u16>("v") : 0;
        if (m.has(x)) vf_end();
        m.add(x, y);
        if constexpr (IS_MAP<C>) c.insert({mk<K>(x), typename C::mapped_type(y)});
        else c.insert(mk<K>(x));
    }
    size_t e = extra && n ? vf::pick(0, extra < n ? extra : n, "e") : 0;
    for (size_t i = 0; i < e; i++)
    {
        size_t p = vf::pick(0, m.n - 1, "p");
        c.erase(mk<K>(m.k[p]));
        m.erase(p);
    }
}

#endif

template <class Ord, class C>
void run(size_t lo, size_t hi, size_t extra, size_t oplo, size_t ophi, size_t ops, C c = C{})
{
    Model<Ord> m;
    build(c, m, lo, hi, extra);
    agree(c, m);
    for (size_t i = 0; i < ops; i++)
    {
        apply(c, m, vf::pick(oplo, ophi, "op"));
        agree(c, m);
    }
}
}  // namespace assoc
