// COVER: own
// BOUNDS: capacity 260 with 255, 256 and 260 elements: copy/move construction and assignment over smaller contents, then one insertion or erasure at both ends, all sequence and associative containers
#define VF_BIG 260
#include "assoc_ops.h"
#include "box.h"
#include "hash_types.h"
#include "seq_ops.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using namespace assoc;
using seq::Kind;
constexpr size_t N = VF_BIG;
template <class C>
void transfer(Box<C>& a, Box<C>& b, auto few)
{
    switch (vf::pick(0, 3, "how"))
    {
    case 0: b.make(static_cast<const C&>(a.get())); break;
    case 1: b.make(std::move(a.get())); break;
    case 2: few(b.make()); b.get() = static_cast<const C&>(a.get()); break;
    case 3: few(b.make()); b.get() = std::move(a.get()); break;
    }
    a.kill();
    vf_cover("big copy");
}
template <Kind K, class C>
void sq()
{
    Box<C> a, b;
    Seq m;
    seq::build<K>(a.make(), m, N, 1);
    transfer(a, b, [](C& c) { c.resize(3); });
    seq::agree<K>(b.get(), m);
    const bool er = vf::coin("erase");
    if (er) { b.get().erase(b.get().cbegin()); m.pop_front(); b.get().pop_back(); m.n--; }
    else if (m.n < N) { u16 x = vf::sym<u16>("x"); b.get().insert(b.get().cbegin(), typename C::value_type(x)); m.insert(0, x); }
    seq::agree<K>(b.get(), m);
    b.kill();
}
template <class Ord, class C>
void as(size_t orders)
{
    using K = typename C::key_type;
    auto add = [](C& c, u16 k, u16 v) { if constexpr (IS_MAP<C>) c.try_emplace(K(k), v); else c.insert(K(k)); };
    Box<C> a, b;
    Model<Ord> m;
    build(a.make(), m, 0, 0, orders);
    transfer(a, b, [&](C& c) { add(c, 5, 5); add(c, 3, 3); });
    agree(b.get(), m);
    for (u16 k : {u16(2), u16(510), u16(256)})
    {
        b.get().erase(K(k));
        if (m.has(k)) m.erase(m.find(k));
    }
    for (u16 k : {u16(1), u16(511)})
    {
        u16 v = IS_MAP<C> ? vf::sym<u16>("v") : 0;
        add(b.get(), k, v);
        m.add(k, v);
    }
    agree(b.get(), m);
    b.kill();
}
VF_ENTRY(big_vector) { sq<Kind::VECTOR, FixedVector<u16, N>>(); }
VF_ENTRY(big_vector_nt) { sq<Kind::VECTOR, FixedVector<NT, N>>(); }
VF_ENTRY(big_deque) { sq<Kind::DEQUE, FixedDeque<u16, N>>(); }
VF_ENTRY(big_deque_nt) { sq<Kind::DEQUE, FixedDeque<NT, N>>(); }
VF_ENTRY(big_circ_nt) { sq<Kind::CIRCULAR, FixedCircularDeque<NT, N>>(); }
VF_ENTRY(big_list) { sq<Kind::LIST, FixedList<u16, N>>(); }
VF_ENTRY(big_list_nt) { sq<Kind::LIST, FixedList<NT, N>>(); }
VF_ENTRY(big_map) { as<Asc, FixedMap<u16, u16, N>>(1); }
VF_ENTRY(big_map_nt) { as<Asc, FixedMap<NT, NT, N>>(1); }
VF_ENTRY(big_set_nt) { as<Asc, FixedSet<NT, N>>(1); }
VF_ENTRY(big_umap) { as<Ins, FixedUnorderedMap<u16, u16, N, HF>>(0); }
VF_ENTRY(big_umap_nt) { as<Ins, FixedUnorderedMap<NT, NT, N, H16>>(0); }
VF_ENTRY(big_uset_nt) { as<Ins, FixedUnorderedSet<NT, N, H16>>(0); }
