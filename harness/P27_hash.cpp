// COVER: own
// BOUNDS: strings of every length 0..150 bytes (thorough 0..300; covers all length classes: 0, 1-3, 4-7, 8-15, 16, 17-48, 49-96 and beyond), every character symbolic, placed in exactly-sized storage at every alignment 0..7 with arbitrary neighbouring bytes, held as string, string_view and wide-character strings; all 8/16/32/64-bit signed and unsigned integers, scoped and unscoped enums over int8/u16/i64, bool, raw and smart pointers, and a key with a user-defined std::hash and equality; lookups in FixedUnorderedMap/FixedUnorderedSet with the default hash of a symbolic integer or enum key and of symbolic strings of up to 20 characters (histories with several keys and every hash: P11, P12)
// OUTSIDE: distribution quality of the hash; floating-point keys; strings longer than 300 bytes
#include "types.h"
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/wyhash.hpp"
using namespace fixed_containers;
using SV = std::string_view;
#ifdef VF_DEEP
constexpr size_t MAXL = 300;
#else
constexpr size_t MAXL = 150;
#endif
template <class T> using H = wyhash::hash<T>;

// the bytes of a key in storage of exactly its size (so any over-read leaves the allocation)
void string_hash(size_t lo, size_t hi)
{
    vf_allow_alloc(1);
    size_t n = vf::pick(lo, hi, "length"), off = vf::pick(0, 7, "alignment");
    char* a = static_cast<char*>(std::malloc(n ? n : 1));
    char* b = static_cast<char*>(std::malloc(n + 16));
    for (size_t i = 0; i < n + 16; i++) b[i] = vf::sym<char>("neighbour");
    for (size_t i = 0; i < n; i++) { a[i] = vf::sym<char>("c"); b[off + i] = a[i]; }
    u64 ha = wyhash_detail::hash(static_cast<const void*>(a), static_cast<i64>(n));
    u64 hb = wyhash_detail::hash(static_cast<const void*>(b + off), static_cast<i64>(n));
    vf::check(ha == hb, "equal bytes hash equally at every address and alignment");
    SV va(a, n), vb(b + off, n);
    vf::check(H<SV>{}(va) == ha && H<SV>{}(vb) == ha, "string_view hash");
    vf::obs(ha);
    vf_cover("hashed");
    if (n <= 20)
    {
        std::string s(a, n);
        vf::check(H<std::string>{}(s) == ha, "a string and a view of the same characters hash equally");
    }
    for (size_t i = 0; i < n; i++) vf::check(a[i] == b[off + i], "hashing does not modify the key");
    std::free(a);
    std::free(b);
}
VF_ENTRY(str_16__w2) { string_hash(0, 16); }
VF_ENTRY(str_48__w2) { string_hash(17, 48); }
VF_ENTRY(str_long__w3) { string_hash(49, MAXL); }
VF_ENTRY(str_wide)
{
    vf_allow_alloc(1);
    size_t n = vf::pick(0, 20, "length");
    char16_t* a = static_cast<char16_t*>(std::malloc(n ? 2 * n : 2));
    char16_t* b = static_cast<char16_t*>(std::malloc(2 * n + 8));
    for (size_t i = 0; i < n; i++) { a[i] = static_cast<char16_t>(vf::sym<u16>("c")); b[1 + i] = a[i]; }
    b[0] = static_cast<char16_t>(vf::sym<u16>("neighbour"));
    b[n + 1] = static_cast<char16_t>(vf::sym<u16>("neighbour"));
    using WV = std::basic_string_view<char16_t>;
    u64 h = H<WV>{}(WV(a, n));
    vf::check(h == H<WV>{}(WV(b + 1, n)), "equal wide strings hash equally");
    vf::check(h == wyhash_detail::hash(static_cast<const void*>(a), static_cast<i64>(2 * n)), "all bytes of a wide string are hashed");
    std::basic_string<char16_t> s(a, n);
    vf::check(H<std::u16string>{}(s) == h, "wide string and view hash equally");
    vf_cover("wide");
    std::free(a);
    std::free(b);
}
// an array of views of every prefix: the hash of one is not influenced by the others
VF_ENTRY(str_history)
{
    char a[24];
    for (auto& c : a) c = vf::sym<char>("c");
    size_t n = vf::pick(0, 24), k = vf::pick(0, 24);
    u64 h1 = H<SV>{}(SV(a, n));
    u64 h2 = H<SV>{}(SV(a, k));
    u64 h3 = H<SV>{}(SV(a, n));
    vf::check(h1 == h3, "hashing has no state");
    vf::obs(h2);
    vf_cover("history");
}

enum class ES : std::int8_t { A = -1, B };
enum EU : u16 { EU_A, EU_B };
enum class EL : i64 { A };
template <class T>
void ints()
{
    T x = vf::sym<T>("x");
    u64 hx = H<T>{}(x);
    struct { u8 pad; T y; u8 tail; } o{vf::sym<u8>(), x, vf::sym<u8>()};
    vf::check(hx == H<T>{}(o.y), "equal integers hash equally");
    vf::obs(hx);
    vf_cover("ints");
}
template <class E>
void enums()
{
    using U = std::underlying_type_t<E>;
    U x = vf::sym<U>("x");
    u64 hx = H<E>{}(static_cast<E>(x));
    struct { u8 pad; E y; u8 tail; } o{vf::sym<u8>(), static_cast<E>(x), vf::sym<u8>()};
    vf::check(hx == H<E>{}(o.y), "equal enum values hash equally");
    vf::obs(hx);
    vf_cover("enums");
}
VF_ENTRY(integers)
{
    switch (vf::pick(0, 11))
    {
    case 0: ints<u8>(); break;
    case 1: ints<std::int8_t>(); break;
    case 2: ints<u16>(); break;
    case 3: ints<std::int16_t>(); break;
    case 4: ints<u32>(); break;
    case 5: ints<std::int32_t>(); break;
    case 6: ints<u64>(); break;
    case 7: ints<i64>(); break;
    case 8: ints<bool>(); break;
    case 9: enums<ES>(); break;
    case 10: enums<EU>(); break;
    case 11: enums<EL>(); break;
    }
}
VF_ENTRY(pointers)
{
    vf_allow_alloc(1);
    u16 a[4] = {};
    size_t i = vf::pick(0, 4), j = vf::pick(0, 4);
    u16* p = a + i;
    u16* q = a + j;
    vf::check(i != j || H<u16*>{}(p) == H<u16*>{}(q), "equal pointers hash equally");
    u64 h = H<u16*>{}(p);
    for (auto& x : a) x = vf::sym<u16>();
    vf::check(H<u16*>{}(p) == h, "a pointer's hash does not depend on the pointee");
    vf::check(H<const u16*>{}(p) == h, "const and mutable pointers hash equally");
    auto u = vf::coin() ? std::make_unique<u16>(a[0]) : std::unique_ptr<u16>();
    u64 hu = H<std::unique_ptr<u16>>{}(u);
    vf::check(hu == H<u16*>{}(u.get()), "a unique_ptr hashes as its pointer");
    if (u) { *u = vf::sym<u16>(); vf::check(H<std::unique_ptr<u16>>{}(u) == hu, "a unique_ptr's hash does not depend on the pointee"); }
    std::shared_ptr<u16> sp(std::shared_ptr<void>{}, p), sq(std::shared_ptr<void>{}, q);
    vf::check(H<std::shared_ptr<u16>>{}(sp) == h && (i != j || H<std::shared_ptr<u16>>{}(sq) == h), "a shared_ptr hashes as its pointer");
    vf_cover("pointers");
}
// other key types go through std::hash
struct Pt
{
    u32 a;
    u8 unused;  // not part of the key's value
    friend bool operator==(const Pt& x, const Pt& y) { return x.a == y.a; }
};
template <> struct std::hash<Pt>
{
    size_t operator()(const Pt& p) const noexcept { return p.a; }
};
VF_ENTRY(user_hash)
{
    u32 a = vf::sym<u32>("a");
    Pt x{a, vf::sym<u8>("p")}, y{a, vf::sym<u8>("q")};
    vf::check(H<Pt>{}(x) == H<Pt>{}(y), "equal keys with a user-defined std::hash hash equally");
    FixedUnorderedMap<Pt, u16, 3, wyhash::hash<Pt>, std::equal_to<Pt>, 4> m;
    m[x] = 7;
    vf::check(m.contains(y) && m.at(y) == 7 && !m.try_emplace(y, static_cast<u16>(9)).second && m.size() == 1, "an equal key is found");
    vf::check(m.erase(y) == 1 && !m.contains(x), "an equal key is erased");
    vf_cover("user hash");
}

// ------------------------------------------------------------ lookups with the default hash
template <class K, class S>
void lookups(size_t others)
{
    S x = vf::sym<S>("key");
    K k = static_cast<K>(x);
    FixedUnorderedMap<K, u16, 4, wyhash::hash<K>, std::equal_to<K>, 4> m;
    FixedUnorderedSet<K, 4, wyhash::hash<K>, std::equal_to<K>, 4> s;
    for (size_t i = 0; i < others; i++) { K o = static_cast<K>(static_cast<S>(i * 37 + 1)); m.try_emplace(o, static_cast<u16>(i)); s.insert(o); }
    bool fresh = true;
    for (size_t i = 0; i < others; i++) if (k == static_cast<K>(static_cast<S>(i * 37 + 1))) fresh = false;
    if (!fresh) vf_end();
    u16 v = vf::sym<u16>("v");
    m[k] = v;
    vf::check(s.insert(k).second, "a new key is inserted");
    K k2 = k;
    vf::check(m.contains(k2) && m.at(k2) == v && m.find(k2) != m.end() && m.size() == others + 1, "an equal key is found");
    vf::check(s.contains(k2) && s.count(k2) == 1 && !s.insert(k2).second && s.size() == others + 1, "an equal key is a duplicate");
    vf::check(m.erase(k2) == 1 && !m.contains(k) && m.size() == others, "an equal key is erased");
    for (size_t i = 0; i < others; i++) { K o = static_cast<K>(static_cast<S>(i * 37 + 1)); vf::check(m.at(o) == i && s.contains(o), "other keys are still found"); }
    vf_cover("lookup");
}
VF_ENTRY(find_u64__w2) { lookups<u64, u64>(0); }
VF_ENTRY(find_i32__w2) { lookups<std::int32_t, std::int32_t>(0); }
VF_ENTRY(find_enum__w2) { lookups<ES, std::int8_t>(0); }
// only the fingerprint part of the default hash, so that the table's bucket arithmetic stays concrete
struct Fp { u64 operator()(SV s) const { return wyhash::hash<SV>{}(s) & 0xff; } };
VF_ENTRY(find_str__w2)
{
    char a[20], b[21];
    size_t n = vf::pick(0, 20, "length");
    for (size_t i = 0; i < n; i++) { a[i] = vf::sym<char>("c"); b[i + 1] = a[i]; }
    FixedUnorderedMap<SV, u16, 4, Fp> m;
    m[SV(a, n)] = 1;
    vf::check(m.contains(SV(b + 1, n)) && m.at(SV(b + 1, n)) == 1, "an equal string at another address is found");
    vf::check(!m.try_emplace(SV(b + 1, n), u16(9)).second, "an equal string is a duplicate");
    vf::check(m.erase(SV(b + 1, n)) == 1 && !m.contains(SV(a, n)), "an equal string is erased");
    vf_cover("strings");
}
