// One symbolic operation on a sequence container and on its reference model.
#pragma once
#include "types.h"

namespace seq
{
enum class Kind { VECTOR, DEQUE, CIRCULAR, LIST };
enum Op : unsigned
{
    PUSH_BACK, PUSH_BACK_MV, EMPLACE_BACK, POP_BACK,
    PUSH_FRONT, PUSH_FRONT_MV, EMPLACE_FRONT, POP_FRONT,
    INSERT, INSERT_MV, EMPLACE, INSERT_PTR, INSERT_FWD, INSERT_IN, INSERT_IL,
    ASSIGN_N, ASSIGN_PTR, ASSIGN_IN, ASSIGN_IL,
    ERASE, ERASE_RANGE, CLEAR, RESIZE, RESIZE_V,
    WRITE, ERASE_VALUE, ERASE_IF, REMOVE, CTOR_N, CTOR_NV, CTOR_RANGE, CTOR_IN, CTOR_IL,
    ALIAS_PUSH_BACK, ALIAS_PUSH_FRONT, ALIAS_INSERT, ALIAS_REMOVE, ALIAS_RESIZE,
    OP_COUNT
};

template <class C>
size_t pos_of(C& c, typename C::const_iterator it)
{
    size_t i = 0;
    for (auto b = c.cbegin(); b != it; ++b)
    {
        if (i > C::static_max_size() + 1) { vf_check(false, "returned iterator does not denote a position of the container"); break; }
        i++;
    }
    return i;
}

// the container shows exactly the model's sequence, however it is looked at
template <Kind K, class C>
void agree(C& c, const Seq& m)
{
    const C& cc = c;
    vf::check(cc.size() == m.n, "size");
    vf::check(cc.empty() == (m.n == 0), "empty");
    vf::check(cc.max_size() == C::static_max_size(), "max_size");
    vf::check(is_full(cc) == (m.n == C::static_max_size()), "is_full");
    size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i)
    {
        if (i >= m.n) break;
        vf::check(val(*it) == m.a[i], "forward iteration");
    }
    vf::check(i == m.n, "forward iteration length");
    i = 0;
    for (auto it = cc.begin(); it != cc.end(); it++, ++i)
    {
        if (i >= m.n) break;
        vf::check(val(*it) == m.a[i], "const iteration");
        vf::obs(val(*it));
    }
    vf::check(i == m.n, "const iteration length");
    i = m.n;
    for (auto it = cc.rbegin(); it != cc.rend(); ++it, --i)
    {
        if (i == 0) { vf::check(false, "reverse iteration length"); break; }
        vf::check(val(*it) == m.a[i - 1], "reverse iteration");
    }
    vf::check(i == 0, "reverse iteration length");
    if constexpr (K != Kind::LIST)
    {
        for (i = 0; i < m.n; i++)
        {
            vf::check(val(c[i]) == m.a[i], "operator[]");
            vf::check(val(cc.at(i)) == m.a[i], "at");
        }
    }
    if constexpr (K == Kind::VECTOR)
    {
        vf::check(cc.capacity() == C::static_max_size(), "capacity");
        for (i = 0; i < m.n; i++) vf::check(val(cc.data()[i]) == m.a[i], "data");
    }
    if (m.n)
    {
        vf::check(val(c.front()) == m.a[0], "front");
        vf::check(val(cc.front()) == m.a[0], "front const");
        vf::check(val(c.back()) == m.a[m.n - 1], "back");
        vf::check(val(cc.back()) == m.a[m.n - 1], "back const");
    }
    vf::obs(m.n);
}

#ifdef VF_BIG
// nearly full large container at a few displacements; concrete elements
template <Kind K, class C>
void build(C& c, Seq& m, size_t maxn, size_t maxrot)
{
    using T = typename C::value_type;
    constexpr size_t CAP = C::static_max_size();
    if constexpr (K == Kind::DEQUE || K == Kind::CIRCULAR)
    {
        if (maxrot)
        {
            const size_t r = vf::pick(0, 2, "rot");
            if (r == 1) for (size_t i = 0; i < 250; i++) { c.push_back(T(u16{7})); c.pop_front(); }
            if (r == 2) for (size_t i = 0; i < 257; i++) { c.push_front(T(u16{9})); c.pop_back(); }
        }
    }
    if (!maxn) return;
    const size_t sizes[] = {255, 256, CAP - 1, CAP};
    const size_t n = sizes[vf::pick(0, 3, "n")];
    bool extra = false;
    if constexpr (K == Kind::LIST)
        if (n < CAP) { c.push_back(T(u16{7})); extra = true; }
    for (size_t i = 0; i < n; i++)
    {
        const u16 x = static_cast<u16>(i * 40503U + 11);
        c.push_back(T(x));
        m.push_back(x);
    }
    if constexpr (K == Kind::LIST) if (extra) c.pop_front();
}
#else
// Builds a container with any number of elements and any internal alignment reachable by pushes and pops.
// maxrot: how far the internal start may be displaced
template <Kind K, class C>
void build(C& c, Seq& m, size_t maxn, size_t maxrot)
{
    using T = typename C::value_type;
    if constexpr (K == Kind::DEQUE || K == Kind::CIRCULAR)
    {
        if (maxrot && C::static_max_size())
        {
            size_t r = vf::pick(0, 2 * maxrot, "rot");
            for (size_t i = 0; i < r && i < maxrot; i++) { c.push_back(T(u16{7})); c.pop_front(); }
            for (size_t i = maxrot; i < r; i++) { c.push_front(T(u16{9})); c.pop_back(); }
        }
    }
    size_t n = vf::pick(0, maxn, "n");
    if constexpr (K == Kind::LIST)
    {
        // scramble the slot and free-list order: extra elements pushed first and erased again at the end
        size_t room = C::static_max_size() - n;
        size_t extra = maxrot && room ? vf::pick(0, room < maxrot ? room : maxrot, "extra") : 0;
        const bool late = extra && n && vf::coin("late");  // the extra elements come first or last, so any slot may become free
        if (!late) for (size_t i = 0; i < extra; i++) c.push_back(T(u16{7}));
        size_t fronts = 0;
        for (size_t i = 0; i < n; i++)
        {
            u16 x = vf::sym<u16>("e");
            if (maxrot && vf::coin("front")) { c.push_front(T(x)); m.insert(0, x); fronts++; }
            else { c.push_back(T(x)); m.push_back(x); }
        }
        auto it = c.begin();
        for (size_t i = 0; i < (late ? n : fronts); i++) ++it;
        if (late)
            for (size_t i = 0; i < extra; i++)
            {
                auto at = c.insert(c.cend(), T(u16{7}));
                if (i == 0) it = at;
            }
        bool second_first = extra > 1 && vf::coin("order");
        if (second_first)
        {
            auto it2 = it;
            ++it2;
            c.erase(it2);
            extra--;
        }
        for (size_t i = 0; i < extra; i++) it = c.erase(it);
    }
    else
        for (size_t i = 0; i < n; i++)
        {
            u16 x = vf::sym<u16>("e");
            c.push_back(T(x));
            m.push_back(x);
        }
}

#endif

template <class T, size_t N>
struct Arr
{
    T t[N];
    u16 v[N];
    size_t n;
};
template <size_t N>
struct Vals
{
    u16 v[N];
};

// applies `op` to both; returns false if the operation does not exist for this kind.
// The operation is kept in contract (for circular containers pushes and inserts may overflow).
template <Kind K, class C>
void apply(C& c, Seq& m, unsigned op)
{
    using T = typename C::value_type;
    constexpr size_t CAP = C::static_max_size();
    constexpr bool CIRC = K == Kind::CIRCULAR;
    const size_t free_slots = CAP - m.n;
    auto nth = [&](size_t p)
    {
        auto it = c.cbegin();
        for (size_t i = 0; i < p; i++) ++it;
        return it;
    };
    switch (op)
    {
    case PUSH_BACK: case PUSH_BACK_MV: case EMPLACE_BACK:
    {
        if (CAP == 0) return;
        if (!free_slots)
        {
            if constexpr (CIRC) m.pop_front();
            else return;
        }
        u16 x = vf::sym<u16>("x");
        T t(x);
        if (op == PUSH_BACK) { c.push_back(t); vf::check(val(t) == x, "argument unchanged"); }
        else if (op == PUSH_BACK_MV) c.push_back(std::move(t));
        else
        {
            auto& r = c.emplace_back(x);
            vf::check(&r == &c.back(), "emplace_back result");
        }
        m.push_back(x);
        vf_cover("push_back");
        return;
    }
    case POP_BACK:
        if (!m.n) return;
        c.pop_back();
        m.n--;
        vf_cover("pop_back");
        return;
    case PUSH_FRONT: case PUSH_FRONT_MV: case EMPLACE_FRONT:
        if constexpr (K != Kind::VECTOR)
        {
            if (CAP == 0) return;
            if (!free_slots)
            {
                if constexpr (CIRC) m.n--;
                else return;
            }
            u16 x = vf::sym<u16>("x");
            T t(x);
            if (op == PUSH_FRONT) { c.push_front(t); vf::check(val(t) == x, "argument unchanged"); }
            else if (op == PUSH_FRONT_MV) c.push_front(std::move(t));
            else
            {
                auto& r = c.emplace_front(x);
                vf::check(&r == &c.front(), "emplace_front result");
            }
            m.insert(0, x);
            vf_cover("push_front");
        }
        return;
    case POP_FRONT:
        if constexpr (K != Kind::VECTOR)
        {
            if (!m.n) return;
            c.pop_front();
            m.pop_front();
            vf_cover("pop_front");
        }
        return;
    case INSERT: case INSERT_MV: case EMPLACE:
    {
        if (CAP == 0) return;
        if (!free_slots && !CIRC) return;
        size_t p = vf::pick(0, m.n, "pos");
        u16 x = vf::sym<u16>("x");
        T t(x);
        auto pos = nth(p);
        auto it = op == INSERT ? c.insert(pos, t) : op == INSERT_MV ? c.insert(pos, std::move(t)) : c.emplace(pos, x);
        if (op == INSERT) vf::check(val(t) == x, "argument unchanged");
        if (free_slots) m.insert(p, x);
        else if (p > 0)
        {
            m.pop_front();
            p--;
            m.insert(p, x);
        }
        // full and inserting before the first element: the new element is the one that is dropped
        vf::check(pos_of(c, it) == p, "insert result");
        vf_cover("insert");
        return;
    }
    case INSERT_PTR: case INSERT_FWD: case INSERT_IN: case INSERT_IL:
    {
        if (CAP == 0 && CIRC) return;
        constexpr size_t MAXK = CIRC ? 4 : 3;
        size_t lim = CIRC ? MAXK : (free_slots < MAXK ? free_slots : MAXK);
        size_t p = vf::pick(0, m.n, "pos");
        size_t k = op == INSERT_IL ? (lim < 2 ? lim : 2) : vf::pick(0, lim, "k");
        u16 xv[MAXK];
        for (size_t i = 0; i < k; i++) xv[i] = vf::sym<u16>("x");
        auto pos = nth(p);
        typename C::iterator it;
        {
            T src[MAXK];
            for (size_t i = 0; i < k; i++) src[i] = T(xv[i]);
            if (op == INSERT_PTR) it = c.insert(pos, static_cast<const T*>(src), static_cast<const T*>(src) + k);
            else if (op == INSERT_FWD) it = c.insert(pos, FwdIt<T>{src}, FwdIt<T>{src + k});
            else if (op == INSERT_IN)
            {
                Stream<T> s{src, k};
                it = c.insert(pos, InIt<T>{&s}, InIt<T>{});
                if constexpr (K != Kind::CIRCULAR) vf::check(s.pos == k, "single-pass range fully consumed");
            }
            else if (k == 2) it = c.insert(pos, {src[0], src[1]});
            else if (k == 1) it = c.insert(pos, {src[0]});
            else it = c.insert(pos, std::initializer_list<T>{});
            for (size_t i = 0; i < k; i++) vf::check(val(src[i]) == xv[i], "source range unchanged");
        }
        size_t dropf = 0, skip = 0;
        if (k > free_slots)
        {
            size_t excess = k - free_slots;
            dropf = excess < p ? excess : p;
            skip = excess - dropf;
        }
        for (size_t i = 0; i < dropf; i++) m.pop_front();
        p -= dropf;
        for (size_t i = skip; i < k; i++) m.insert(p + i - skip, xv[i]);
        vf::check(pos_of(c, it) == p, "range insert result");
        vf_cover("range insert");
        return;
    }
    case ASSIGN_N:
    {
        size_t k = vf::pick(0, CIRC ? CAP + 2 : CAP, "k");
        u16 x = vf::sym<u16>("x");
        {
            T t(x);
            c.assign(k, t);
        }
        m.clear();
        m.resize(k < CAP ? k : CAP, x);
        vf_cover("assign n");
        return;
    }
    case ASSIGN_PTR: case ASSIGN_IN: case ASSIGN_IL: case CTOR_RANGE: case CTOR_IN: case CTOR_IL:
    {
        constexpr size_t LIM = CIRC ? CAP + 2 : CAP;
        bool ctor = op == CTOR_RANGE || op == CTOR_IN || op == CTOR_IL;
        if (CAP == 0 && CIRC) return;
        size_t k = (op == ASSIGN_IL || op == CTOR_IL) ? (LIM < 2 ? LIM : 2) : vf::pick(0, LIM, "k");
        u16 xv[LIM + 1];
        for (size_t i = 0; i < k; i++) xv[i] = vf::sym<u16>("x");
        {
            T src[LIM + 1];
            for (size_t i = 0; i < k; i++) src[i] = T(xv[i]);
            m.clear();
            for (size_t i = k > CAP ? k - CAP : 0; i < k; i++) m.push_back(xv[i]);
            if (op == ASSIGN_PTR) c.assign(static_cast<const T*>(src), static_cast<const T*>(src) + k);
            else if (op == ASSIGN_IN)
            {
                Stream<T> s{src, k};
                c.assign(InIt<T>{&s}, InIt<T>{});
                if constexpr (K != Kind::CIRCULAR) vf::check(s.pos == k, "single-pass range fully consumed");
            }
            else if (op == ASSIGN_IL)
            {
                if constexpr (LIM >= 2) c.assign({src[0], src[1]});
                else if constexpr (LIM == 1) c.assign({src[0]});
                else c.assign(std::initializer_list<T>{});
            }
            else if (op == CTOR_RANGE) { C d(FwdIt<T>{src}, FwdIt<T>{src + k}); agree<K>(d, m); }
            else if (op == CTOR_IN) { Stream<T> s{src, k}; C d(InIt<T>{&s}, InIt<T>{}); agree<K>(d, m); }
            else
            {
                if constexpr (LIM >= 2) { C d{src[0], src[1]}; agree<K>(d, m); }
            }
            for (size_t i = 0; i < k; i++) vf::check(val(src[i]) == xv[i], "source range unchanged");
        }
        if (ctor) { c.clear(); m.clear(); }
        vf_cover("assign range");
        return;
    }
    case CTOR_N:
    {
        size_t k = vf::pick(0, CAP, "k");
        m.clear();
        m.resize(k, 0);
        { C d(k); agree<K>(d, m); }
        m.clear();
        c.clear();
        return;
    }
    case CTOR_NV:
    {
        size_t k = vf::pick(0, CAP, "k");
        u16 x = vf::sym<u16>("x");
        m.clear();
        m.resize(k, x);
        { T t(x); C d(k, t); agree<K>(d, m); }
        m.clear();
        c.clear();
        return;
    }
    case ERASE:
    {
        if (!m.n) return;
        size_t p = vf::pick(0, m.n - 1, "pos");
        auto it = c.erase(nth(p));
        m.erase(p);
        vf::check(pos_of(c, it) == p, "erase result");
        vf_cover("erase");
        return;
    }
    case ERASE_RANGE:
    {
        size_t p = vf::pick(0, m.n, "pos");
        size_t q = vf::pick(p, m.n, "last");
        auto it = c.erase(nth(p), nth(q));
        m.erase(p, q - p);
        vf::check(pos_of(c, it) == p, "range erase result");
        vf_cover("range erase");
        return;
    }
    case CLEAR:
        c.clear();
        m.clear();
        vf_cover("clear");
        return;
    case RESIZE:
    {
        size_t k = vf::pick(0, CAP, "k");
        c.resize(k);
        m.resize(k, 0);
        vf_cover("resize");
        return;
    }
    case RESIZE_V:
    {
        size_t k = vf::pick(0, CAP, "k");
        u16 x = vf::sym<u16>("x");
        {
            T t(x);
            c.resize(k, t);
        }
        m.resize(k, x);
        vf_cover("resize value");
        return;
    }
    case WRITE:
    {
        if (!m.n) return;
        size_t p = vf::pick(0, m.n - 1, "pos");
        u16 x = vf::sym<u16>("x");
        unsigned how = static_cast<unsigned>(vf::pick(0, 4, "how"));
        if (how == 0)
        {
            auto it = c.begin();
            for (size_t i = 0; i < p; i++) ++it;
            *it = T(x);
        }
        else if (how == 1)
        {
            auto it = c.rbegin();
            for (size_t i = 0; i < p; i++) ++it;
            *it = T(x);
            p = m.n - 1 - p;
        }
        else if (how == 2) { p = 0; c.front() = T(x); }
        else if (how == 3) { p = m.n - 1; c.back() = T(x); }
        else if constexpr (K != Kind::LIST)
        {
            if (vf::coin("at")) c[p] = T(x);
            else c.at(p) = T(x);
        }
        else return;
        m.a[p] = x;
        vf_cover("write");
        return;
    }
    case ERASE_VALUE:
    {
        u16 x = vf::sym<u16>("x");
        T t(x);
        size_t r = erase(c, t);
        vf::check(r == m.remove(x), "erase(value) result");
        vf_cover("erase value");
        return;
    }
    case ERASE_IF:
    {
        size_t r = erase_if(c, [](const T& t) { return (val(t) & 1) != 0; });
        vf::check(r == m.remove_odd(), "erase_if result");
        vf_cover("erase_if");
        return;
    }
    case REMOVE:
        if constexpr (K == Kind::LIST)
        {
            size_t r;
            if (vf::coin("if"))
            {
                r = c.remove_if([](const T& t) { return (val(t) & 1) != 0; });
                vf::check(r == m.remove_odd(), "remove_if result");
            }
            else
            {
                u16 x = vf::sym<u16>("x");
                T t(x);
                r = c.remove(t);
                vf::check(r == m.remove(x), "remove result");
            }
            vf_cover("remove");
        }
        return;
    // the argument is an element of the container itself
    case ALIAS_PUSH_BACK: case ALIAS_PUSH_FRONT: case ALIAS_INSERT: case ALIAS_RESIZE:
    {
        if (!m.n) return;
        size_t q = vf::pick(0, m.n - 1, "src");
        u16 x = m.a[q];
        auto src = c.begin();
        for (size_t i = 0; i < q; i++) ++src;
        const T& ref = *src;
        if (op == ALIAS_RESIZE) { c.resize(CAP, ref); m.resize(CAP, x); return; }
        if (!free_slots && !CIRC) return;
        if (op == ALIAS_PUSH_BACK)
        {
            if (!free_slots) m.pop_front();
            if (vf::coin("emplace")) c.emplace_back(ref);
            else c.push_back(ref);
            m.push_back(x);
        }
        else if (op == ALIAS_PUSH_FRONT)
        {
            if constexpr (K != Kind::VECTOR)
            {
                if (!free_slots) m.n--;
                if (vf::coin("emplace")) c.emplace_front(ref);
                else c.push_front(ref);
                m.insert(0, x);
            }
        }
        else
        {
            size_t p = vf::pick(0, m.n, "pos");
            auto it = vf::coin("emplace") ? c.emplace(nth(p), ref) : c.insert(nth(p), ref);
            if (free_slots) m.insert(p, x);
            else if (p > 0) { m.pop_front(); p--; m.insert(p, x); }
            vf::check(pos_of(c, it) == p, "insert result");
        }
        vf_cover("argument aliases an element");
        return;
    }
    case ALIAS_REMOVE:
        if constexpr (K == Kind::LIST)
        {
            if (!m.n) return;
            size_t q = vf::pick(0, m.n - 1, "src");
            auto src = c.begin();
            for (size_t i = 0; i < q; i++) ++src;
            u16 x = m.a[q];
            size_t r = c.remove(*src);
            vf::check(r == m.remove(x), "remove result");
            vf_cover("remove an element by reference to it");
        }
        return;
    default: return;
    }
}

// arbitrary state, then `ops` symbolic operations drawn from [lo, hi], checking after each
template <Kind K, class C>
void run(size_t maxn, size_t maxrot, unsigned lo, unsigned hi, size_t ops)
{
    C c{};
    Seq m;
    if (maxn > C::static_max_size()) maxn = C::static_max_size();
    build<K>(c, m, maxn, maxrot);
    agree<K>(c, m);
    for (size_t i = 0; i < ops; i++)
    {
        unsigned op = static_cast<unsigned>(vf::pick(lo, hi, "op"));
        apply<K>(c, m, op);
        agree<K>(c, m);
    }
}
}  // namespace seq
