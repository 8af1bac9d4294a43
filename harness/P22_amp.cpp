// COVER: own
// BOUNDS: element type that overloads operator&: up to 3 elements with symbolic values in every sequence, set and map container, read and written through *it, it->, it[k], data(), front/back and reverse iterators
#include "assoc_ops.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/random_access_iterator_transformer.hpp"
using namespace fixed_containers;
struct Amp
{
    u16 v;
    static inline unsigned char decoy[16];
    Amp* operator&() { return reinterpret_cast<Amp*>(decoy); }
    const Amp* operator&() const { return reinterpret_cast<const Amp*>(decoy); }
    friend bool operator==(const Amp& a, const Amp& b) { return a.v == b.v; }
    friend auto operator<=>(const Amp& a, const Amp& b) { return a.v <=> b.v; }
};
struct HAmp { size_t operator()(const Amp& a) const { return a.v; } };
template <class C>
void seqs()
{
    C c{};
    u16 x[3];
    size_t n = vf::pick(1, 3, "n");
    for (size_t i = 0; i < n; i++) c.push_back(Amp{x[i] = vf::sym<u16>("x")});
    size_t w = vf::pick(0, n - 1, "which");
    auto it = c.begin();
    for (size_t i = 0; i < w; i++) ++it;
    u16 y = vf::sym<u16>("y");
    switch (vf::pick(0, 2, "how"))
    {
    case 0: it->v = y; break;
    case 1: (*it).v = y; break;
    case 2: it.operator->()->v = y; break;
    }
    x[w] = y;
    vf::check(it.operator->() == std::addressof(*it), "-> and * denote the same element");
    const C& q = c;
    size_t i = 0;
    for (auto j = q.begin(); j != q.end(); ++j, i++)
        vf::check((j->v == x[i]) & ((*j).v == x[i]) & (j.operator->() == std::addressof(*j)), "reads");
    vf::check(i == n, "all elements");
    for (auto j = q.rbegin(); j != q.rend(); ++j) { i--; vf::check((j->v == x[i]) & ((*j).v == x[i]), "reads backwards"); }
    vf::check((c.front().v == x[0]) & (c.back().v == x[n - 1]), "front and back");
    if constexpr (requires { c.data(); }) vf::check(c.data() == std::addressof(c.front()) && q.data() == std::addressof(q.front()) && c.data()[w].v == y, "data");
    if constexpr (requires { it[0]; })
        vf::check(std::addressof(c.begin()[static_cast<std::ptrdiff_t>(w)]) == std::addressof(c[w]), "subscript");
    c.erase(c.begin());
    c.insert(c.begin(), Amp{y});
    vf::check(c.front().v == y, "insert");
    vf_cover("amp sequence");
}
VF_ENTRY(amp_vector) { seqs<FixedVector<Amp, 3>>(); }
VF_ENTRY(amp_deque) { seqs<FixedDeque<Amp, 3>>(); }
VF_ENTRY(amp_circ) { seqs<FixedCircularDeque<Amp, 3>>(); }
VF_ENTRY(amp_list) { seqs<FixedList<Amp, 3>>(); }
template <class C>
void maps()
{
    C c{};
    size_t n = vf::pick(1, 3, "n");
    u16 x[3], y = vf::sym<u16>("y");
    for (u16 i = 0; i < n; i++) c.try_emplace(Amp{i}, Amp{x[i] = vf::sym<u16>("x")});
    u16 w = static_cast<u16>(vf::pick(0, n - 1, "which"));
    auto it = c.find(Amp{w});
    if (vf::coin()) it->second.v = y; else (*it).second.v = y;
    x[w] = y;
    vf::check(std::addressof(it->second) == std::addressof(c.at(Amp{w})) && std::addressof((*it).second) == std::addressof(c.at(Amp{w})), "the iterator denotes the entry");
    const C& q = c;
    size_t i = 0;
    for (auto j = q.begin(); j != q.end(); ++j, i++) vf::check((j->first.v == i) & (j->second.v == x[i]) & ((*j).second.v == x[i]), "reads");
    vf::check(i == n, "all entries");
    c.insert_or_assign(Amp{w}, Amp{7});
    vf::check(c.at(Amp{w}).v == 7, "assigned");
    vf_cover("amp map");
}
VF_ENTRY(amp_map) { maps<FixedMap<Amp, Amp, 3>>(); }
VF_ENTRY(amp_umap) { maps<FixedUnorderedMap<Amp, Amp, 3, HAmp>>(); }
template <class C>
void sets()
{
    C c{};
    size_t n = vf::pick(1, 3, "n");
    for (u16 i = 0; i < n; i++) c.insert(Amp{i});
    u16 i = 0;
    for (auto j = c.begin(); j != c.end(); ++j, i++)
        vf::check((j->v == i) & ((*j).v == i) & (j.operator->() == std::addressof(*j)), "reads");
    vf::check(i == n, "all keys");
    vf_cover("amp set");
}
VF_ENTRY(amp_set) { sets<FixedSet<Amp, 3>>(); }
VF_ENTRY(amp_uset) { sets<FixedUnorderedSet<Amp, 3, HAmp>>(); }
VF_ENTRY(amp_transformer)
{
    Amp a[3]{{vf::sym<u16>("x")}, {vf::sym<u16>("x")}, {vf::sym<u16>("x")}};
    auto id = [](Amp& p) -> Amp& { return p; };
    auto cid = [](const Amp& p) -> const Amp& { return p; };
    size_t w = vf::pick(0, 2, "which");
    RandomAccessIteratorTransformer<const Amp*, Amp*, decltype(cid), decltype(id), IteratorConstness::CONSTANT_ITERATOR> it{a + w, cid};
    vf::check(it->v == a[w].v && it.operator->() == a + w && std::addressof(*it) == a + w, "transformed element");
    RandomAccessIteratorTransformer<const Amp*, Amp*, decltype(cid), decltype(id), IteratorConstness::MUTABLE_ITERATOR> mt{a + w, id};
    u16 y = vf::sym<u16>("y");
    mt->v = y;
    vf::check(a[w].v == y && mt.operator->() == a + w, "written through");
    vf_cover("amp transformer");
}
