// COVER: own
// BOUNDS: FixedVector, FixedDeque, FixedCircularDeque, FixedList, FixedString, FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet, EnumMap, EnumSet, FixedStack, FixedQueue, FixedCircularQueue; trivially copyable and non-trivial elements; capacity 3; any contents and internal layout of source and (for assignment) previous contents of the destination; copy/move construction, copy/move/self assignment, swap; then one arbitrary operation on either object (every call form for the copies), with the other object unchanged or already destroyed and overwritten; stateful comparators, hashes
// OUTSIDE: larger capacities except as in the *_big.cpp entries; contents of moved-from objects (only destruction and reassignment are exercised)
#include "box.h"
#include "enum_types.h"
#include "hash_types.h"
#include "seq_ops.h"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using seq::Kind;

// Ops: build(c, m, full), agree(c, m), step(c, m)
template <class C, class O>
void copies(C proto = C{})
{
    typename O::M ma, mb;
    Box<C> a, b;
    O::build(a.make(proto), ma, false);
    size_t how = vf::pick(0, 6, "how");
    switch (how)
    {
    case 0: b.make(static_cast<const C&>(a.get())); O::agree(a.get(), ma); vf_cover("copy construct"); break;
    case 1: b.make(std::move(a.get())); vf_cover("move construct"); break;
    case 2:
        O::build(b.make(), mb, true);
        b.get() = static_cast<const C&>(a.get());
        O::agree(a.get(), ma);
        vf_cover("copy assign");
        break;
    case 3: O::build(b.make(), mb, true); b.get() = std::move(a.get()); vf_cover("move assign"); break;
    case 4:
        O::build(b.make(), mb, true);
        std::swap(a.get(), b.get());
        O::agree(a.get(), mb);
        O::agree(b.get(), ma);
        O::step(a.get(), mb);
        O::agree(a.get(), mb);
        O::agree(b.get(), ma);
        vf_cover("swap");
        return a.kill(), b.kill();
    case 5:
    {
        C& r = a.get();
        r = *&r;
        O::agree(r, ma);
        O::step(r, ma);
        O::agree(r, ma);
        vf_cover("self assign");
        return a.kill();
    }
    case 6:
        // assigning to a moved-from object makes it whole again
        b.make(std::move(a.get()));
        O::agree(b.get(), ma);
        a.get() = static_cast<const C&>(b.get());
        b.kill();
        O::agree(a.get(), ma);
        O::step(a.get(), ma);
        O::agree(a.get(), ma);
        vf_cover("assign to moved-from");
        return a.kill();
    }
    bool moved = how == 1 || how == 3;
    O::agree(b.get(), ma);
    if (moved || vf::coin("destroy source")) { a.kill(); O::step(b.get(), ma); O::agree(b.get(), ma); }
    else if (vf::coin("which"))
    {
        mb = ma;
        O::step(b.get(), mb);
        O::agree(b.get(), mb);
        O::agree(a.get(), ma);
        a.kill();
    }
    else
    {
        mb = ma;
        O::step(a.get(), mb);
        O::agree(a.get(), mb);
        O::agree(b.get(), ma);
        a.kill();
    }
    b.kill();
    vf_cover("independent");
}
template <Kind K, class C>
struct SeqO
{
    using M = Seq;
    static void build(C& c, Seq& m, bool second) { seq::build<K>(c, m, second ? 2 : 3, second ? (K == Kind::LIST ? 0 : 1) : 2); }
    static void agree(C& c, const Seq& m) { seq::agree<K>(c, m); }
    static void step(C& c, Seq& m)
    {
        constexpr unsigned OPS[] = {seq::PUSH_BACK, seq::POP_FRONT, seq::INSERT, seq::ERASE, seq::CLEAR, seq::WRITE, seq::ASSIGN_N};
        const size_t op = vf::pick(0, 7, "op");
        if (op < 7) return seq::apply<K>(c, m, OPS[op]);
        while (m.n < C::static_max_size()) seq::apply<K>(c, m, seq::PUSH_BACK);  // every slot can still be used
    }
};
template <class Ord, class C, size_t N = 2>
struct AssocO
{
    using M = assoc::Model<Ord>;
    static void build(C& c, M& m, bool second) { assoc::build(c, m, 0, second ? 1 : N, second ? 0 : 1); }
    static void agree(C& c, const M& m) { assoc::agree(c, m); }
    static void step(C& c, M& m)
    {
        constexpr unsigned OPS[] = {assoc::INSERT_L, assoc::ERASE_KEY, assoc::CLEAR, assoc::WRITE, assoc::LOOKUP};
        const size_t op = vf::pick(0, 5, "op");
        if (op < 5) return assoc::apply(c, m, OPS[op]);
        // every slot can still be used
        using K = typename C::key_type;
        if constexpr (std::is_constructible_v<K, u16>)
        {
            bool low = true;
            for (size_t i = 0; i < m.n; i++) low = low & (m.k[i] < 0xFFF0);
            vf_assume(low);
            for (u16 i = 0; m.n < C::static_max_size(); i++)
            {
                const u16 x = static_cast<u16>(0xFFF0 + i * 5);
                if constexpr (assoc::IS_MAP<C>) vf::check(c.try_emplace(K(x), u16{3}).second, "inserted");
                else vf::check(c.insert(K(x)).second, "inserted");
                m.add(x, assoc::IS_MAP<C> ? 3 : 0);
            }
        }
        else vf_end();
    }
};
template <class C, bool STACK, bool CIRC>
struct AdaptO
{
    using M = Seq;
    using T = typename C::value_type;
    static constexpr size_t CAP = 3;
    static void push(C& c, Seq& m)
    {
        if (m.n == CAP && !CIRC) return;
        u16 x = vf::sym<u16>("x");
        c.push(T(x));
        if (m.n == CAP) m.pop_front();
        m.push_back(x);
    }
    static void pop(C& c, Seq& m)
    {
        if (!m.n) return;
        c.pop();
        if (STACK) m.n--; else m.pop_front();
    }
    static void build(C& c, Seq& m, bool second)
    {
        size_t n = vf::pick(0, second ? 2 : 4, "n");
        for (size_t i = 0; i < n; i++) push(c, m);
        if (!second && vf::coin("pop")) pop(c, m);
    }
    static void agree(C& c, const Seq& m)
    {
        const C& k = c;
        vf::check(k.size() == m.n && k.empty() == (m.n == 0), "size");
        if constexpr (STACK) { if (m.n) vf::check(val(k.top()) == m.a[m.n - 1], "top"); }
        else if (m.n) { vf::check(val(k.front()) == m.a[0], "front"); vf::check(val(k.back()) == m.a[m.n - 1], "back"); }
    }
    static void step(C& c, Seq& m)
    {
        if (vf::coin("op")) push(c, m); else pop(c, m);
        // drain a copy to see all of it
        C d(c);
        Seq e = m;
        while (e.n) { agree(d, e); pop(d, e); }
        agree(d, e);
    }
};
template <class C>
struct StrO
{
    using M = Seq;
    static void build(C& c, Seq& m, bool second)
    {
        size_t n = vf::pick(0, second ? 2 : 3, "n");
        for (size_t i = 0; i < n; i++) { char x = vf::sym<char>("x"); c.push_back(x); m.push_back(static_cast<u8>(x)); }
    }
    static void agree(C& c, const Seq& m)
    {
        const C& k = c;
        vf::check(k.size() == m.n && k.length() == m.n, "size");
        for (size_t i = 0; i < m.n; i++) vf::check(static_cast<u8>(k[i]) == m.a[i], "character");
        vf::check(k.c_str()[m.n] == 0, "terminator");
        for (size_t i = 0; i < m.n; i++) vf::check(static_cast<u8>(k.c_str()[i]) == m.a[i], "character");
    }
    static void step(C& c, Seq& m)
    {
        switch (vf::pick(0, 4, "op"))
        {
        case 0: if (m.n < 3) { char x = vf::sym<char>("x"); c.push_back(x); m.push_back(static_cast<u8>(x)); } break;
        case 1: if (m.n) { c.pop_back(); m.n--; } break;
        case 2: c.clear(); m.n = 0; break;
        case 3: if (m.n) { c[0] = 'q'; m.a[0] = 'q'; } break;
        case 4: if (m.n) { c.erase(c.cbegin()); m.pop_front(); } break;
        }
    }
};
#define SEQ(NAME, TPL, KD) \
    VF_ENTRY(NAME##_u16__w2) { copies<TPL<u16, 3>, SeqO<KD, TPL<u16, 3>>>(); } \
    VF_ENTRY(NAME##_nt__w2) { copies<TPL<NT, 3>, SeqO<KD, TPL<NT, 3>>>(); }
SEQ(vector, FixedVector, Kind::VECTOR)
SEQ(deque, FixedDeque, Kind::DEQUE)
SEQ(circ, FixedCircularDeque, Kind::CIRCULAR)
SEQ(list, FixedList, Kind::LIST)
#define ASSOC(NAME, ORD, ...) VF_ENTRY(NAME##__w5) { using C = __VA_ARGS__; copies<C, AssocO<ORD, C>>(); }
using namespace assoc;
ASSOC(map_u16, Asc, FixedMap<u16, u16, 3>)
ASSOC(map_nt, Asc, FixedMap<NT, NT, 3>)
ASSOC(map_mix, Asc, FixedMap<u16, NT, 3, std::less<u16>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR>)
ASSOC(set_u16, Asc, FixedSet<u16, 3>)
ASSOC(set_nt, Desc, FixedSet<NT, 3, std::greater<NT>>)
ASSOC(map_contig, Asc, FixedMap<u16, NT, 3, std::less<u16>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, FixedIndexBasedContiguousStorage>)
ASSOC(set_contig, Asc, FixedSet<NT, 3, std::less<NT>, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedContiguousStorage>)
ASSOC(umap_u16, Ins, FixedUnorderedMap<u16, u16, 3, HF, std::equal_to<u16>, 4>)
ASSOC(umap_nt, Ins, FixedUnorderedMap<NT, NT, 3, H16, std::equal_to<NT>, 3>)
ASSOC(uset_u16, Ins, FixedUnorderedSet<u16, 3, HF, std::equal_to<u16>, 3>)
ASSOC(uset_nt, Ins, FixedUnorderedSet<NT, 3, H0, std::equal_to<NT>, 3>)
ASSOC(enummap_u16, Asc, EnumMap<ES, u16>)
ASSOC(enummap_nt, Asc, EnumMap<R3, NT>)
ASSOC(enumset, Asc, EnumSet<ES>)
VF_ENTRY(string) { copies<FixedString<3>, StrO<FixedString<3>>>(); }
VF_ENTRY(stack_u16) { copies<FixedStack<u16, 3>, AdaptO<FixedStack<u16, 3>, true, false>>(); }
VF_ENTRY(stack_nt) { copies<FixedStack<NT, 3>, AdaptO<FixedStack<NT, 3>, true, false>>(); }
VF_ENTRY(queue_u16) { copies<FixedQueue<u16, 3>, AdaptO<FixedQueue<u16, 3>, false, false>>(); }
VF_ENTRY(queue_nt) { copies<FixedQueue<NT, 3>, AdaptO<FixedQueue<NT, 3>, false, false>>(); }
VF_ENTRY(cqueue_u16) { copies<FixedCircularQueue<u16, 3>, AdaptO<FixedCircularQueue<u16, 3>, false, true>>(); }
VF_ENTRY(cqueue_nt) { copies<FixedCircularQueue<NT, 3>, AdaptO<FixedCircularQueue<NT, 3>, false, true>>(); }

// the comparator or hash is part of the container's value: the copy orders and finds keys as the source did
struct CmpS
{
    bool desc = false;
    bool operator()(u16 a, u16 b) const { return desc ? b < a : a < b; }
    bool operator()(const NT& a, const NT& b) const { return desc ? b.v < a.v : a.v < b.v; }
};
template <class C>
void state_ord()
{
    C asc(CmpS{false}), desc(CmpS{true});
    using K = typename C::key_type;
    u16 x = vf::sym<u16>("x"), y = vf::sym<u16>("y");
    vf_assume(x < y);
    auto add = [](C& c, u16 k) { if constexpr (IS_MAP<C>) c.try_emplace(K(k), u16{1}); else c.insert(K(k)); };
    auto is = [&](C& c, u16 first, u16 second)
    {
        vf::check(c.size() == 2, "size");
        auto it = c.begin();
        vf::check(keyOf<C>(*it) == first, "order of the source kept");
        ++it;
        vf::check(keyOf<C>(*it) == second, "order of the source kept");
        vf::check(c.contains(K(x)) && c.contains(K(y)), "present key found");
    };
    size_t pre = vf::pick(0, 2, "pre");
    C& src = vf::coin("desc") ? desc : asc;
    bool d = &src == &desc;
    if (pre > 0) add(src, x);
    if (pre > 1) add(src, y);
    switch (vf::pick(0, 4, "how"))
    {
    case 0: { C c(static_cast<const C&>(src)); if (pre < 1) add(c, x); if (pre < 2) add(c, y); is(c, d ? y : x, d ? x : y); break; }
    case 1: { C c(std::move(src)); if (pre < 1) add(c, x); if (pre < 2) add(c, y); is(c, d ? y : x, d ? x : y); break; }
    case 2: { C& o = d ? asc : desc; add(o, 7); o = static_cast<const C&>(src); if (pre < 1) add(o, x); if (pre < 2) add(o, y); is(o, d ? y : x, d ? x : y); break; }
    case 3: { C& o = d ? asc : desc; add(o, 7); o = std::move(src); if (pre < 1) add(o, x); if (pre < 2) add(o, y); is(o, d ? y : x, d ? x : y); break; }
    case 4:
    {
        C& o = d ? asc : desc;
        std::swap(src, o);
        if (pre < 1) add(o, x);
        if (pre < 2) add(o, y);
        is(o, d ? y : x, d ? x : y);
        add(src, x);
        add(src, y);
        is(src, d ? x : y, d ? y : x);
        break;
    }
    }
    vf_cover("stateful comparator");
}
VF_ENTRY(state_map_u16) { state_ord<FixedMap<u16, u16, 3, CmpS>>(); }
VF_ENTRY(state_map_nt) { state_ord<FixedMap<NT, NT, 3, CmpS>>(); }
VF_ENTRY(state_set_u16) { state_ord<FixedSet<u16, 3, CmpS>>(); }
VF_ENTRY(state_set_nt) { state_ord<FixedSet<NT, 3, CmpS>>(); }
struct HSN { u64 mask = 0; u64 operator()(u16 k) const { return (k & mask) << 5; } u64 operator()(const NT& k) const { return (k.v & mask) << 5; } };
template <class C>
void state_hash()
{
    using K = typename C::key_type;
    C src(HSN{0xff8}), dst(HSN{0x7f});
    auto add = [](C& c, u16 k) { if constexpr (IS_MAP<C>) c.try_emplace(K(k), u16{1}); else c.insert(K(k)); };
    u16 x = vf::sym<u16>("x"), y = vf::sym<u16>("y");
    vf_assume(x != y);
    add(src, x);
    auto is = [&](C& c)
    {
        vf::check(c.contains(K(x)), "present key found");
        add(c, y);
        vf::check(c.size() == 2 && c.contains(K(x)) && c.contains(K(y)), "present key found");
        vf::check(c.erase(K(x)) == 1 && !c.contains(K(x)), "erased");
    };
    switch (vf::pick(0, 4, "how"))
    {
    case 0: { C c(static_cast<const C&>(src)); is(c); break; }
    case 1: { C c(std::move(src)); is(c); break; }
    case 2: add(dst, y); dst = static_cast<const C&>(src); vf::check(!dst.contains(K(y)), "old contents gone"); is(dst); is(src); break;
    case 3: add(dst, y); dst = std::move(src); vf::check(!dst.contains(K(y)), "old contents gone"); is(dst); break;
    case 4: std::swap(src, dst); is(dst); vf::check(src.empty(), "swapped"); add(src, x); is(src); break;
    }
    vf_cover("stateful hash");
}
VF_ENTRY(state_umap_u16) { state_hash<FixedUnorderedMap<u16, u16, 3, HSN>>(); }
VF_ENTRY(state_umap_nt) { state_hash<FixedUnorderedMap<NT, NT, 3, HSN>>(); }
VF_ENTRY(state_uset_u16) { state_hash<FixedUnorderedSet<u16, 3, HSN>>(); }
VF_ENTRY(state_uset_nt) { state_hash<FixedUnorderedSet<NT, 3, HSN>>(); }
