// BOUNDS: containers of 260 elements: all pairs of positions among those at which narrow integers wrap
#define VF_BIG 260
#include "P22_iterators.cpp"
template <class C, Cat CAT>
void large()
{
    C c{};
    using T = typename C::value_type;
    if constexpr (requires { c.push_front(T(u16{1})); })
        for (size_t i = 0; i < 100; i++) { c.push_back(T(u16{1})); c.pop_front(); }
    for (size_t i = 0; i < 260; i++) c.push_back(T(static_cast<u16>(i)));
    laws<C, CAT>(c, 260);
}
VF_ENTRY(big_vector) { large<FixedVector<u16, 260>, Cat::RANDOM>(); }
VF_ENTRY(big_string) { large<FixedString<260>, Cat::RANDOM>(); }
VF_ENTRY(big_deque__w3) { large<FixedDeque<NT, 260>, Cat::RANDOM>(); }
VF_ENTRY(big_circ__w3) { large<FixedCircularDeque<u16, 260>, Cat::RANDOM>(); }
VF_ENTRY(big_list) { large<FixedList<u16, 260>, Cat::BIDIR>(); }
template <class C, Cat CAT>
void large_as()
{
    C c{};
    for (size_t i = 0; i < 260; i++)
    {
        u16 k = static_cast<u16>(i * 97 % 260);
        if constexpr (assoc::IS_MAP<C>) c.try_emplace(k, k); else c.insert(k);
    }
    laws<C, CAT>(c, 260);
}
VF_ENTRY(big_map) { large_as<FixedMap<u16, u16, 260>, Cat::BIDIR>(); }
VF_ENTRY(big_set) { large_as<FixedSet<u16, 260>, Cat::BIDIR>(); }
VF_ENTRY(big_umap) { large_as<FixedUnorderedMap<u16, u16, 260, HF>, Cat::FWD>(); }
