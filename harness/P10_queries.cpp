// BOUNDS: FixedRedBlackTree used directly, both colour layouts and storages: up to 6 symbolic keys in every arrival order, then lower/floor/ceiling/higher/lookup of any symbolic key, minimum, maximum, successor and predecessor of every node, operator[] and move insertion of present and absent keys, deletion of absent keys and of any range; exchanging the slots of any two nodes of trees of 7 nodes
#define VF_NO_ENTRIES
#include "P10_balance.cpp"
constexpr size_t Q = 6;
template <class T>
void grow(T& t, Seq& m, size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        u16 x = vf::sym<u16>("k");
        size_t p = 0;
        while (p < m.n && m.a[p] < x) p++;
        if (p < m.n && m.a[p] == x) vf_end();
        t.insert_node(std::move(x));
        m.insert(p, x);
    }
}
template <class T>
void at(const T& t, const Seq& m, size_t idx, size_t p)  // p == m.n: none
{
    vf::check((idx == NULL_INDEX) == (p >= m.n), "found or not");
    if (idx != NULL_INDEX && p < m.n) vf::check(t.node_at(idx).key() == m.a[p], "found key");
}
template <class T>
void queries(size_t n)
{
    T t{};
    Seq m;
    grow(t, m, n);
    const u16 x = vf::sym<u16>("x");
    size_t lb = 0, ub = 0;
    while (lb < m.n && m.a[lb] < x) lb++;
    while (ub < m.n && m.a[ub] <= x) ub++;
    constexpr size_t NONE = 1000;
    at(t, m, t.index_of_node_lower(x), lb ? lb - 1 : NONE);
    at(t, m, t.index_of_node_floor(x), ub ? ub - 1 : NONE);
    at(t, m, t.index_of_node_ceiling(x), lb);
    at(t, m, t.index_of_node_higher(x), ub);
    at(t, m, t.index_of_node_or_null(x), lb != ub ? lb : NONE);
    vf::check(t.contains_node(x) == (lb != ub), "contains");
    at(t, m, t.index_of_min_at(), 0);
    at(t, m, t.index_of_max_at(), m.n ? m.n - 1 : NONE);
    size_t i = t.index_of_min_at();
    for (size_t p = 0; p < m.n; p++)
    {
        at(t, m, i, p);
        at(t, m, t.index_of_predecessor_at(i), p ? p - 1 : NONE);
        i = t.index_of_successor_at(i);
    }
    vf::check(i == NULL_INDEX, "end of the walk");
    vf::check(t.empty() == (m.n == 0) && t.full() == (m.n == Q), "empty and full");
    vf_cover("queries");
}
VF_ENTRY(query_pe__w5) { queries<PE<Q>>(vf::pick(0, Q)); }
VF_ENTRY(query_pd__w4) { queries<PD<Q>>(vf::pick(0, Q - 1)); }
VF_ENTRY(query_ce__w4) { queries<CE<Q>>(vf::pick(0, Q - 1)); }
VF_ENTRY(query_cd__w4) { queries<CD<Q>>(vf::pick(0, Q - 1)); }
// operator[], move insertion, absent deletions and range deletions
template <class T>
void edits(size_t n)
{
    T t{};
    Seq m;
    grow(t, m, n);
    u16 x = vf::sym<u16>("x"), v = vf::sym<u16>("v");
    size_t lb = 0;
    while (lb < m.n && m.a[lb] < x) lb++;
    const bool has = lb < m.n && m.a[lb] == x;
    const u16 kept = x;
    switch (vf::pick(0, 4, "op"))
    {
    case 0:
    case 1:
        if constexpr (requires { t[x]; })
        {
            for (size_t j = 0; j < m.n; j++) t[m.a[j]] = static_cast<u16>(j + 100);
            valid(t, m);
            u16& r = vf::coin("move") ? t[std::move(x)] : t[kept];
            if (has) vf::check(r == lb + 100, "value kept");
            else vf::check(r == 0, "value initialised");
            r = v;
            if (!has) m.insert(lb, kept);
            for (size_t j = 0; j < m.n; j++)
            {
                const auto node = t.node_at(t.index_of_node_or_null(m.a[j]));
                vf::check(node.value() == (j == lb ? v : static_cast<u16>((j > lb && !has ? j - 1 : j) + 100)), "values");
            }
        }
        break;
    case 2:
        t.insert_node(std::move(x));
        if (!has) m.insert(lb, kept);
        break;
    case 3:
        vf::check(t.delete_node(x) == (has ? 1u : 0u), "delete_node");
        if (has) m.erase(lb);
        break;
    default:
    {
        const size_t a = vf::pick(0, m.n, "a"), b = vf::pick(a, m.n, "b");
        const size_t r = t.delete_range_and_return_successor(a == m.n ? NULL_INDEX : nth(t, a), b == m.n ? NULL_INDEX : nth(t, b));
        for (size_t j = a; j < b; j++) m.erase(a);
        at(t, m, r, a);
    }
    }
    valid(t, m);
    vf_cover("edits");
}
VF_ENTRY(edit_pe__w6) { edits<PE<Q>>(vf::pick(0, Q - 1)); }
VF_ENTRY(edit_ce__w6) { edits<CE<Q>>(vf::pick(0, Q - 1)); }
VF_ENTRY(edit_cd__w4) { edits<CD<Q>>(vf::pick(0, Q - 2)); }
// exchanging two nodes' slots moves nothing in key order and keeps every link
template <class T>
void exchange(size_t n)
{
    T t{};
    u16 k[8], v[8];
    Seq m;
    for (size_t i = 0; i < n; i++)
    {
        k[i] = vf::sym<u16>("k");
        v[i] = vf::sym<u16>("v");
        if (i) vf_assume(k[i - 1] < k[i]);
    }
    const size_t w = vf::pick(0, 5, "w");
    for (size_t i = 0; i < n; i++) t.insert_node(k[pattern(w, i, n)]);
    for (size_t i = 0; i < n; i++) t[k[i]] = v[i];
    for (size_t i = 0; i < n; i++) m.push_back(k[i]);
    const size_t a = vf::pick(0, n - 1, "a"), b = vf::pick(0, n - 1, "b");
    if (a == b) vf_end();
    const size_t ia = nth(t, a), ib = nth(t, b);
    FixedRedBlackTreeOps<T>::swap_nodes_including_key_and_value(t, ia, ib);
    valid(t, m);
    vf::check(nth(t, a) == ib && nth(t, b) == ia, "slots exchanged");
    for (size_t i = 0; i < n; i++) vf::check(t.node_at(nth(t, i)).value() == v[i], "values");
    vf_cover("exchange");
}
VF_ENTRY(swap_pe) { exchange<PE<8>>(7); }
VF_ENTRY(swap_ce) { exchange<CE<8>>(7); }
