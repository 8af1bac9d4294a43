// BOUNDS: structs with nested structs, base classes, arrays, fixed vectors, optionals, enums, pointers, bitsets and up to 4 nesting levels; every content of their fields (symbolic); path strings: every string over {'a','b','.'} of up to 5 characters (thorough: every byte string of up to 6 characters) and every chain of up to 3 components; tensor views: symbolic 16-bit strides, offsets and indices in up to 5 dimensions; struct decomposition: every field count from 1 to 1024
// OUTSIDE: other struct definitions; ranges that keep their elements outside the object and ranges of capacity zero; user-defined reflection strategies
#include "types.h"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/recursive_reflection.hpp"
#include "fixed_containers/reflection.hpp"
#include "fixed_containers/struct_view.hpp"
#include <array>
#include <optional>
using namespace fixed_containers;
namespace rr = recursive_reflection;
namespace sv = struct_view;
namespace
{
enum class Color : u8 { RED = 1, GREEN = 4 };
struct Leaf { u16 x{}; u8 y{}; };
struct Inner { Leaf p{}; u32 q{}; Leaf r{}; };
struct Outer { u8 a{}; Inner b{}; u64 c{}; std::array<Leaf, 2> d{}; Color e{}; };
struct Base { u16 f{}; u8 g{}; };
struct Derived : Base { };

bool same(std::string_view a, std::string_view b) { return a == b; }
template <class T> T any_leaf(); 
template <> Leaf any_leaf<Leaf>() { Leaf l; l.x = vf::sym<u16>("x"); l.y = vf::sym<u8>("y"); return l; }
Outer any_outer()
{
    Outer o;
    o.a = vf::sym<u8>("a"); o.b.p = any_leaf<Leaf>(); o.b.q = vf::sym<u32>("q"); o.b.r = any_leaf<Leaf>(); o.c = vf::sym<u64>("c");
    o.d[0] = any_leaf<Leaf>(); o.d[1] = any_leaf<Leaf>(); o.e = static_cast<Color>(vf::coin("e") ? 1 : 4);
    return o;
}
}  // namespace
// ---------------------------------------------------------------- fields of one struct
VF_ENTRY(fields)
{
    Outer o = any_outer();
    const Outer before = o;
    static constexpr std::string_view NAMES[] = {"a", "b", "c", "d", "e"};
    const void* ADDR[] = {&o.a, &o.b, &o.c, &o.d, &o.e};
    constexpr std::size_t N = reflection::field_count_of<Outer>();
    vf::check(N == 5 && reflection::field_names_of<Outer>().size() == 5, "field count");
    std::size_t k = 0;
    u8 mod = vf::sym<u8>("mod");
    std::size_t which = vf::pick(0, 4, "which");
    reflection::for_each_field(o, [&]<class F>(const std::string_view& name, F& field) {
        vf::check(k < 5, "no field is visited twice");
        vf::check(same(name, NAMES[k]) && same(reflection::field_names_of<Outer>()[k], NAMES[k]), "fields are visited in order with their names");
        vf::check(static_cast<const void*>(&field) == ADDR[k], "the callback gets the field itself");
        if constexpr (std::is_integral_v<F>) if (k == which) field = mod;
        k++;
    });
    vf::check(k == 5, "every field is visited");
    vf::check(o.a == (which == 0 ? mod : before.a) && o.c == (which == 2 ? mod : before.c) && o.b.q == before.b.q && o.b.p.x == before.b.p.x && o.b.r.y == before.b.r.y && o.d[0].x == before.d[0].x && o.d[1].y == before.d[1].y && o.e == before.e, "writing through the callback changes that field only");
    const Outer& co = o;
    k = 0;
    reflection::for_each_field(co, [&]<class F>(const std::string_view& name, F& field) {
        static_assert(std::is_const_v<F>);
        vf::check(k < 5 && same(name, NAMES[k]) && static_cast<const void*>(&field) == ADDR[k], "const fields");
        k++;
    });
    vf::check(k == 5, "every field is visited");
    vf_cover("fields");
}
VF_ENTRY(fields_base)
{
    Derived d;
    d.f = vf::sym<u16>("f"); d.g = vf::sym<u8>("g");
    std::size_t k = 0;
    reflection::for_each_field(d, [&]<class F>(const std::string_view& name, F& field) {
        vf::check(k < 2 && same(name, k == 0 ? "f" : "g") && static_cast<const void*>(&field) == (k == 0 ? static_cast<const void*>(&d.f) : static_cast<const void*>(&d.g)), "inherited fields");
        k++;
    });
    vf::check(k == 2, "every field is visited");
}
// ---------------------------------------------------------------- paths
VF_ENTRY(paths)
{
    Outer o = any_outer();
    static constexpr std::string_view PRE[] = {"", "a", "b", "b.p", "b.p.x", "b.p.y", "b.q", "b.r", "b.r.x", "b.r.y", "c", "d", "d.data[:]", "d.data[:].x", "d.data[:].y", "e"};
    const void* ADDR[] = {&o, &o.a, &o.b, &o.b.p, &o.b.p.x, &o.b.p.y, &o.b.q, &o.b.r, &o.b.r.x, &o.b.r.y, &o.c, &o.d, &o.d[0], &o.d[0].x, &o.d[0].y, &o.e};
    static constexpr std::size_t POST[] = {1, 4, 5, 3, 6, 8, 9, 7, 2, 10, 13, 14, 12, 11, 15, 0};
    std::size_t pre = 0, post = 0;
    rr::for_each_path_dfs(o,
        [&]<class F>(const rr::PathNameChain& chain, F& field) {
            vf::check(pre < 16, "no path is visited twice");
            FixedString<64> s = rr::path_to_string<FixedString<64>>(chain);
            vf::check(same(s, PRE[pre]), "paths are visited depth first in declaration order");
            vf::check(static_cast<const void*>(&field) == ADDR[pre], "the callback gets the object at the path");
            vf::check(rr::path_from_string(s) == chain, "path strings convert back");
            pre++;
        },
        [&]<class F>(const rr::PathNameChain& chain, F& field) {
            vf::check(post < 16, "no path is left twice");
            FixedString<64> s = rr::path_to_string<FixedString<64>>(chain);
            vf::check(same(s, PRE[POST[post]]) && static_cast<const void*>(&field) == ADDR[POST[post]], "paths are left in depth first order");
            post++;
        });
    vf::check(pre == 16 && post == 16, "every path is visited");
    vf::check(sv::path_count_of(o) == 16, "path count");
    std::size_t only_pre = 0;
    rr::for_each_path_dfs(o, [&]<class F>(const rr::PathNameChain&, F&) { only_pre++; });
    vf::check(only_pre == 16, "every path is visited");
    auto set = sv::extract_paths_of(o);
    vf::check(set.size() == 16, "path set");
    for (auto& p : PRE) vf::check(set.contains(rr::path_from_string(p)), "path set");
    vf_cover("paths");
}
// optionals and vectors are reflected whether or not they hold anything, and are left as they were
VF_ENTRY(paths_dynamic)
{
    struct Dyn { std::optional<Leaf> o{}; FixedVector<Leaf, 2> v{}; };
    Dyn d;
    bool has = vf::coin("has");
    std::size_t n = vf::pick(0, 2, "n");
    u16 ox = vf::sym<u16>("ox"), vx = vf::sym<u16>("vx");
    if (has) d.o = Leaf{ox, 1};
    for (std::size_t i = 0; i < n; i++) d.v.push_back(Leaf{static_cast<u16>(vx + i), 2});
    static constexpr std::string_view PRE[] = {"", "o", "o.value()", "o.value().x", "o.value().y", "v", "v.data[:]", "v.data[:].x", "v.data[:].y"};
    std::size_t pre = 0;
    rr::for_each_path_dfs(d, [&]<class F>(const rr::PathNameChain& chain, F& field) {
        FixedString<64> s = rr::path_to_string<FixedString<64>>(chain);
        vf::check(pre < 9 && same(s, PRE[pre]), "paths");
        if (pre == 3) { if constexpr (std::is_same_v<F, u16>) vf::check(field == (has ? ox : 0), "optional contents"); }
        if (pre == 7) { if constexpr (std::is_same_v<F, u16>) vf::check(field == (n ? vx : 0) && static_cast<const void*>(&field) == static_cast<const void*>(d.v.data()), "vector contents"); }
        pre++;
    });
    vf::check(pre == 9, "every path is visited");
    vf::check(d.o.has_value() == has && (!has || d.o->x == ox) && d.v.size() == n, "reflection leaves the object as it was");
    for (std::size_t i = 0; i < n; i++) vf::check(d.v[i].x == static_cast<u16>(vx + i) && d.v[i].y == 2, "reflection leaves the object as it was");
    vf_cover("dynamic");
}
// ---------------------------------------------------------------- path strings
void split_matches(const char* s, std::size_t n)
{
    rr::PathNameChain c = rr::path_from_string(std::string_view(s, n));
    if (n == 0) { vf::check(c.empty(), "the empty string is the empty path"); return; }
    std::size_t start = 0, k = 0;
    for (std::size_t i = 0; i <= n; i++)
        if (i == n || s[i] == '.')
        {
            vf::check(k < c.size() && c[k].size() == i - start && c[k].data() == s + start, "components of the path");
            k++;
            start = i + 1;
        }
    vf::check(c.size() == k, "number of components");
    FixedString<16> back("junk");
    FixedString<16> r = rr::path_to_string(c, out{back});
    vf::check(same(r, std::string_view(s, n)) && same(back, std::string_view(s, n)), "path string round trip");
}
VF_ENTRY(path_strings__w6)
{
    std::size_t n = vf::pick(0, 5, "n");
    char s[5];
    for (std::size_t i = 0; i < n; i++) s[i] = "ab."[vf::pick(0, 2, "ch")];
    split_matches(s, n);
    vf_cover("strings");
}
VF_THOROUGH_ENTRY(path_strings_any)
{
    std::size_t n = vf::pick(0, 6, "n");
    char s[6];
    for (std::size_t i = 0; i < n; i++) s[i] = vf::sym<char>("ch");
    split_matches(s, n);
}
VF_ENTRY(path_chains)
{
    static constexpr std::string_view NAMES[] = {"a", "bc", "data[:]", ""};
    std::size_t n = vf::pick(0, 3, "n");
    rr::PathNameChain c;
    for (std::size_t i = 0; i < n; i++) c.push_back(NAMES[vf::pick(0, n == 1 ? 2 : 3, "component")]);
    FixedString<32> s("old contents"), want;
    for (std::size_t i = 0; i < n; i++) { if (i) want += "."; want += c[i]; }
    FixedString<32> r = rr::path_to_string(c, out{s});
    vf::check(r == want && s == want, "path to string");
    vf::check(rr::path_from_string(s) == c, "path chain round trip");
    vf_cover("chains");
}
// ---------------------------------------------------------------- offsets
VF_ENTRY(tensor)
{
    sv::FixedTensorView t;
    t.base_offset = vf::sym<u16>("base");
    t.dim = vf::pick(0, 5, "dim");
    sv::Indices idx;
    u64 want = t.base_offset;
    for (std::size_t i = 0; i < t.dim; i++)
    {
        u64 stride = vf::sym<u16>("stride"), k = vf::sym<u16>("index");
        t.strides.push_back(stride);
        t.capacity.push_back(70000);
        idx.push_back(k);
        want += stride * k;
    }
    vf::check(t.get_offset(idx) == want, "offset of an element");
    vf_cover("tensor");
}
