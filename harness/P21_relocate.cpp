// COVER: own
// BOUNDS: FixedVector, FixedDeque, FixedCircularDeque, FixedList, FixedStack, FixedQueue, FixedCircularQueue, FixedString, FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet, EnumMap, EnumSet, EnumArray of trivially copyable elements (2-byte, and over-aligned 16-byte), capacity 3; constructed over memory holding symbolic garbage, between guard bytes; any contents and layout, then the bytes are copied to another address, the original overwritten with other symbolic garbage, and one arbitrary operation plus a full read-out run on the copy; any heap allocation is an error in every harness
// OUTSIDE: containers of non-trivially-copyable elements (byte relocation is not promised for them); larger capacities
#include "box.h"
#include "enum_types.h"
#include "hash_types.h"
#include "seq_ops.h"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using seq::Kind;
// over-aligned, with padding
struct alignas(16) Big
{
    u16 v;
    Big() = default;
    constexpr Big(u16 x) : v(x) {}
    friend bool operator==(const Big& a, const Big& b) { return a.v == b.v; }
    friend bool operator<(const Big& a, const Big& b) { return a.v < b.v; }
};
inline u16 val(const Big& b) { return b.v; }

template <class C>
struct Guarded
{
    unsigned char pre[32];
    alignas(alignof(C) > 16 ? alignof(C) : 16) unsigned char raw[sizeof(C)];
    unsigned char post[32];
    unsigned char g;
    void garbage()
    {
        g = vf::sym<u8>("garbage");
        for (size_t i = 0; i < 32; i++) pre[i] = post[i] = static_cast<unsigned char>(g + i);
        for (size_t i = 0; i < sizeof raw; i++) raw[i] = static_cast<unsigned char>(g ^ i);
    }
    void intact() const
    {
        bool ok = true;
        for (size_t i = 0; i < 32; i++) ok &= pre[i] == static_cast<unsigned char>(g + i) && post[i] == static_cast<unsigned char>(g + i);
        vf::check(ok, "nothing outside the object is written");
    }
    C& get() { return *std::launder(reinterpret_cast<C*>(raw)); }
};
// O: build, agree, step
template <class C, class O>
void relocate()
{
    static_assert(std::is_trivially_copyable_v<C>);
    Guarded<C> a, b;
    a.garbage();
    b.garbage();
    new (a.raw) C();
    typename O::M m;
    O::agree(a.get(), m);
    O::build(a.get(), m, false);
    O::agree(a.get(), m);
    for (size_t i = 0; i < sizeof(C); i++) b.raw[i] = a.raw[i];
    u8 g2 = vf::sym<u8>("garbage2");
    for (size_t i = 0; i < sizeof(C); i++) a.raw[i] = static_cast<unsigned char>(g2 + 3 * i);
    O::agree(b.get(), m);
    O::step(b.get(), m);
    O::agree(b.get(), m);
    bool untouched = true;
    for (size_t i = 0; i < sizeof(C); i++) untouched &= a.raw[i] == static_cast<unsigned char>(g2 + 3 * i);
    vf::check(untouched, "the copy does not touch the original's memory");
    a.intact();
    b.intact();
    vf_cover("relocated");
}
template <Kind K, class C, unsigned LO, unsigned HI>
struct SeqO
{
    using M = Seq;
    static void build(C& c, Seq& m, bool) { seq::build<K>(c, m, 3, K == Kind::LIST ? 1 : 2); }
    static void agree(C& c, const Seq& m) { seq::agree<K>(c, m); }
    static void step(C& c, Seq& m) { seq::apply<K>(c, m, static_cast<unsigned>(vf::pick(LO, HI, "op"))); }
};
template <class Ord, class C, size_t N, size_t X = 1>
struct AssocO
{
    using M = assoc::Model<Ord>;
    static void build(C& c, M& m, bool) { assoc::build(c, m, 0, N, X); }
    static void agree(C& c, const M& m) { assoc::agree(c, m); }
    static void step(C& c, M& m)
    {
        constexpr unsigned OPS[] = {assoc::INSERT_L, assoc::IOA_R, assoc::ERASE_KEY, assoc::ERASE_POS, assoc::CLEAR, assoc::WRITE, assoc::LOOKUP};
        assoc::apply(c, m, OPS[vf::pick(0, 6, "op")]);
    }
};
#define SEQ(NAME, TPL, KD) \
    VF_ENTRY(NAME##_push) { using C = TPL<u16, 3>; relocate<C, SeqO<KD, C, seq::PUSH_BACK, seq::EMPLACE>>(); } \
    VF_ENTRY(NAME##_range__w2) { using C = TPL<u16, 3>; relocate<C, SeqO<KD, C, seq::INSERT_FWD, seq::ASSIGN_PTR>>(); } \
    VF_ENTRY(NAME##_erase) { using C = TPL<u16, 3>; relocate<C, SeqO<KD, C, seq::ERASE, seq::ERASE_IF>>(); } \
    VF_ENTRY(NAME##_big) { using C = TPL<Big, 3>; relocate<C, SeqO<KD, C, seq::POP_BACK, seq::EMPLACE>>(); }
SEQ(vector, FixedVector, Kind::VECTOR)
SEQ(deque, FixedDeque, Kind::DEQUE)
SEQ(circ, FixedCircularDeque, Kind::CIRCULAR)
SEQ(list, FixedList, Kind::LIST)
#define ASSOC(NAME, ORD, N, ...) VF_ENTRY(NAME##__w5) { using C = __VA_ARGS__; relocate<C, AssocO<ORD, C, N>>(); }
using namespace assoc;
using RB2 = fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
ASSOC(map_u16, Asc, 3, FixedMap<u16, u16, 3>)
ASSOC(map_dedicated, Asc, 3, FixedMap<u16, u16, 3, std::less<u16>, RB2::DEDICATED_COLOR>)
ASSOC(map_big, Asc, 2, FixedMap<Big, u16, 3>)
ASSOC(set_u16, Asc, 3, FixedSet<u16, 3>)
ASSOC(set_contig, Asc, 3, FixedSet<u16, 3, std::less<u16>, RB2::EMBEDDED_COLOR, FixedIndexBasedContiguousStorage>)
ASSOC(umap_u16, Ins, 2, FixedUnorderedMap<u16, u16, 3, HF, std::equal_to<u16>, 3>)
ASSOC(uset_u16, Ins, 3, FixedUnorderedSet<u16, 3, HF, std::equal_to<u16>, 3>)
ASSOC(uset_h16, Ins, 2, FixedUnorderedSet<u16, 3, H16, std::equal_to<u16>, 3>)
ASSOC(enummap, Asc, 2, EnumMap<ES, u16>)
ASSOC(enummap_rich, Asc, 2, EnumMap<R3, Big>)
ASSOC(enumset, Asc, 2, EnumSet<ES>)
template <class C, bool STACK, bool CIRC>
struct AdaptO
{
    using M = Seq;
    static void push(C& c, Seq& m)
    {
        if (m.n == 3 && !CIRC) return;
        u16 x = vf::sym<u16>("x");
        c.push(x);
        if (m.n == 3) m.pop_front();
        m.push_back(x);
    }
    static void pop(C& c, Seq& m)
    {
        if (!m.n) return;
        c.pop();
        if (STACK) m.n--; else m.pop_front();
    }
    static void build(C& c, Seq& m, bool)
    {
        for (int i = 0; i < 5; i++)
            if (vf::coin("push")) push(c, m); else pop(c, m);
    }
    static void agree(C& c, const Seq& m)
    {
        const C& k = c;
        vf::check(k.size() == m.n && k.empty() == (m.n == 0), "size");
        if constexpr (STACK) { if (m.n) vf::check(k.top() == m.a[m.n - 1], "top"); }
        else if (m.n) { vf::check(k.front() == m.a[0], "front"); vf::check(k.back() == m.a[m.n - 1], "back"); }
    }
    static void step(C& c, Seq& m)
    {
        if (vf::coin("op")) push(c, m); else pop(c, m);
        while (m.n > 1) { agree(c, m); pop(c, m); }
    }
};
VF_ENTRY(stack) { using C = FixedStack<u16, 3>; relocate<C, AdaptO<C, true, false>>(); }
VF_ENTRY(queue) { using C = FixedQueue<u16, 3>; relocate<C, AdaptO<C, false, false>>(); }
VF_ENTRY(cqueue) { using C = FixedCircularQueue<u16, 3>; relocate<C, AdaptO<C, false, true>>(); }
struct StrO
{
    using C = FixedString<3>;
    using M = Seq;
    static void push(C& c, Seq& m) { char x = vf::sym<char>("x"); c.push_back(x); m.push_back(static_cast<u8>(x)); }
    static void build(C& c, Seq& m, bool)
    {
        size_t n = vf::pick(0, 3, "n");
        for (size_t i = 0; i < n; i++) push(c, m);
        if (n && vf::coin("pop")) { c.pop_back(); m.n--; }
    }
    static void agree(C& c, const Seq& m)
    {
        const C& k = c;
        vf::check(k.size() == m.n, "size");
        for (size_t i = 0; i < m.n; i++) vf::check(static_cast<u8>(k.data()[i]) == m.a[i], "character");
        vf::check(k.c_str()[m.n] == 0, "terminator");
    }
    static void step(C& c, Seq& m)
    {
        switch (vf::pick(0, 3, "op"))
        {
        case 0: if (m.n < 3) push(c, m); break;
        case 1: if (m.n) { c.pop_back(); m.n--; } break;
        case 2: c.clear(); m.n = 0; break;
        case 3: { size_t k = vf::pick(0, 3, "k"); char x = vf::sym<char>("x"); c.resize(k, x); m.resize(k, static_cast<u8>(x)); break; }
        }
    }
};
VF_ENTRY(string) { relocate<FixedString<3>, StrO>(); }
struct ArrO
{
    using C = EnumArray<ES, u16>;
    struct M { u16 a[4] = {}; };
    static void build(C& c, M& m, bool) { for (u16 i = 0; i < 4; i++) c[Tab<ES>::at(i)] = m.a[i] = vf::sym<u16>("x"); }
    static void agree(C& c, const M& m) { for (u16 i = 0; i < 4; i++) vf::check(c.at(Tab<ES>::at(i)) == m.a[i], "element"); vf::check(c.size() == 4, "size"); }
    static void step(C& c, M& m) { size_t i = vf::pick(0, 3, "i"); c[Tab<ES>::at(static_cast<u16>(i))] = m.a[i] = vf::sym<u16>("x"); }
};
VF_ENTRY(enumarray) { relocate<EnumArray<ES, u16>, ArrO>(); }
