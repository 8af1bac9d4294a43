// BOUNDS: FixedUnorderedSet<K,CAP,Hash,Eq,BUCKETS>, K in {u16, NT}; the hash is a symbolic function of the symbolic key (bucket, fingerprint and full collisions all solver-chosen: H16 keeps 13 key bits, HB bucket only, HF fingerprint only, H0 constant, HW 64 bits wide, HS stateful); up to 4 entries (thorough 5), up to 1 erased again, bucket counts equal to, just above and well above the capacity; every single operation from every such state, every pair at CAP 2 (thorough 3); capacity 0, 1
// OUTSIDE: probe chains longer than the entry bound
#include "assoc_ops.h"
#include "hash_types.h"
#include "fixed_containers/fixed_unordered_set.hpp"
using namespace fixed_containers;
using namespace assoc;
#ifdef VF_DEEP
constexpr size_t N = 5, D = 1;
#else
constexpr size_t N = 4, D = 0;
#endif
template <class K, size_t C, class H, size_t B> using UM = FixedUnorderedSet<K, C, H, std::equal_to<K>, B>;
#define SUITE(NAME, NI, NE, ...)                                                     \
    VF_ENTRY(NAME##_insert__w2) { run<Ins, __VA_ARGS__>(0, NI, 0, INSERT_L, WRITE, 1); }  \
    VF_ENTRY(NAME##_erase__w3) { run<Ins, __VA_ARGS__>(0, NE, 1, ERASE_KEY, LOOKUP, 1); }
SUITE(h16_tight, 2, 3, UM<u16, 3, H16, 3>)
SUITE(h16_roomy, 1 + D, 2 + D, UM<NT, 3, H16, 5>)
SUITE(h0, 4, 5, UM<NT, 5, H0, 5>)
SUITE(hb, 3, 3, UM<u16, 3, HB, 4>)
SUITE(hf, 3, N, UM<u16, N, HF, N>)
VF_ENTRY(hw) { run<Ins, UM<u16, 2, HW, 2>>(0, 2, 0, INSERT_L, LOOKUP, 1); }
VF_ENTRY(h16_full__w5) { run<Ins, UM<u16, 3, H16, 3>>(3, 3, 0, INSERT_L, WRITE, 1); }
VF_ENTRY(after_erase__w5) { run<Ins, UM<u16, 4, H16, 4>>(3, 3, 1, INSERT_L, INSERT_L, 1); }
VF_ENTRY(four_buckets__w5)
{
    using M = UM<u16, 4, HB, 4>;
    run<Ins, M>(4, 4, 1, ERASE_KEY, LOOKUP, 1);
}
VF_ENTRY(two_ops__w9) { run<Ins, UM<NT, 2 + D, H16, 2 + D>>(0, 1, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(cap1) { run<Ins, FixedUnorderedSet<u16, 1, H16>>(0, 1, 0, INSERT_L, LOOKUP, 2); }
VF_ENTRY(cap0) { run<Ins, FixedUnorderedSet<u16, 0, H16>>(0, 0, 0, ERASE_KEY, LOOKUP, 1); }
VF_ENTRY(stateful)
{
    using M = FixedUnorderedSet<u16, 3, HS, EqS, 4>;
    M c(HS{vf::sym<u16>("mask")}, EqS{true});
    run<Ins, M>(0, 2, 0, INSERT_L, LOOKUP, 1, c);
}
VF_ENTRY(ctors)
{
    using M = FixedUnorderedSet<u16, 3, H16>;
    Model<Ins> m;
    size_t k = vf::pick(0, 3);
    u16 src[3];
    for (size_t i = 0; i < k; i++)
    {
        src[i] = vf::sym<u16>("k");
        if (!m.has(src[i])) m.add(src[i], 0);
    }
    switch (vf::pick(0, 3))
    {
    case 0: { M c(static_cast<const u16*>(src), static_cast<const u16*>(src) + k); agree(c, m); break; }
    case 1: { Stream<u16> s{src, k}; M c(InIt<u16>{&s}, InIt<u16>{}); agree(c, m); break; }
    case 2: if (k == 2) { M c{src[0], src[1]}; agree(c, m); } break;
    case 3: if (k == 2) { auto c = make_fixed_unordered_set<u16, H16>({src[0], src[1]}); vf::check(c.max_size() == 2, "make"); agree(c, m); } break;
    }
    vf_cover("ctors");
}
// default hash
VF_ENTRY(default_hash)
{
    FixedUnorderedSet<u32, 1> c{};
    u32 k = vf::sym<u32>("k");
    vf::check(!c.contains(k), "absent");
    c.insert(k);
    vf::check(c.contains(k) && *c.find(k) == k && c.size() == 1, "present");
    vf::check(c.erase(k) == 1 && c.empty(), "erased");
}
// FixedUnorderedSet::try_emplace, with and without hint
VF_ENTRY(try_emplace)
{
    using C = FixedUnorderedSet<u16, 4, H16>;
    C c{};
    Model<Ins> m;
    for (size_t s = 0; s < 3; s++)
    {
        const u16 x = vf::sym<u16>("k");
        const bool present = m.has(x);
        u16 y = x;
        auto r = [&]
        {
            switch (vf::pick(0, 3, "form"))
            {
            case 0: return c.try_emplace(x);
            case 1: return c.try_emplace(std::move(y));
            case 2: return c.try_emplace(c.cend(), x);
            default: return c.try_emplace(c.cbegin(), std::move(y));
            }
        }();
        vf::check(r.second == !present && *r.first == x, "try_emplace");
        if (!present) m.add(x, 0);
        agree(c, m);
    }
    vf_cover("try_emplace");
}
