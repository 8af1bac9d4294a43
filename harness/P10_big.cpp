// BOUNDS: trees of 261 nodes (concrete keys) built in six orders and emptied in four orders, validated after every 20th step and around 256 nodes
#define VF_BIG 270
#include "P10_balance.cpp"
template <class T>
void large()
{
    constexpr size_t n = 261;
    const size_t w = vf::pick(0, 5, "w"), how = vf::pick(0, 3, "how");
    T t{};
    Seq m;
    auto look = [&](size_t i) { if (i % 20 == 0 || (i > 253 && i < 258)) valid(t, m); };
    for (size_t i = 0; i < n; i++)
    {
        const u16 k = static_cast<u16>(2 * pattern(w, i, n));
        size_t p = m.n;
        while (p > 0 && m.a[p - 1] > k) p--;
        m.insert(p, k);
        t.insert_node(k);
        look(m.n);
    }
    valid(t, m);
    while (m.n)
    {
        const size_t p = how == 0 ? 0 : how == 1 ? m.n - 1 : how == 2 ? m.n / 2 : (m.n % 2 ? m.n / 3 : m.n - 1);
        vf::check(t.delete_node(m.a[p]) == 1, "delete_node");
        m.erase(p);
        look(m.n);
    }
    vf_cover("large tree");
}
VF_ENTRY(big_pe__w5) { large<PE<261>>(); }
VF_ENTRY(big_pd__w5) { large<PD<261>>(); }
VF_ENTRY(big_ce__w5) { large<CE<261>>(); }
VF_ENTRY(big_cd__w5) { large<CD<261>>(); }
