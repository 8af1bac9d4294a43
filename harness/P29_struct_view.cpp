// BOUNDS: struct views: a struct with scalars, nested structs, one- and two-dimensional arrays, a fixed vector of every size, an empty or engaged optional and an enum; every field content (symbolic), every valid index combination, every selection of paths to add
// OUTSIDE: sub struct views of vectors nested in vectors
#include "types.h"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/struct_view.hpp"
#include <array>
#include <optional>
using namespace fixed_containers;
namespace sv = struct_view;
namespace svd = struct_view_detail;
using sv::path_from_string;
namespace
{
enum class Color : u8 { RED = 1, GREEN = 4, BLUE = 5 };
struct Leaf { u16 x{}; u8 y{}; };
struct Super { u8 pad{}; u32 a{}; Leaf b{}; std::array<Leaf, 2> c{}; u8 pad2{}; FixedVector<u16, 3> v{}; std::optional<u16> o{}; Color e{Color::RED}; std::array<std::array<u16, 2>, 3> m{}; };
struct SubLeaf { const u8* y{}; };
struct Sub { const u32* a{}; SubLeaf b{}; std::array<SubLeaf, 2> c{}; FixedVector<const u16*, 3> v{}; std::optional<const u16*> o{}; std::string_view e{}; std::array<std::array<const u16*, 2>, 3> m{}; };
void fill(Super& s, std::size_t n, bool has)
{
    s.pad = vf::sym<u8>("pad"); s.a = vf::sym<u32>("a"); s.b = {vf::sym<u16>("bx"), vf::sym<u8>("by")};
    for (auto& l : s.c) l = {vf::sym<u16>("cx"), vf::sym<u8>("cy")};
    for (std::size_t i = 0; i < n; i++) s.v.push_back(vf::sym<u16>("v"));
    if (has) s.o = vf::sym<u16>("o");
    for (auto& r : s.m) for (auto& x : r) x = vf::sym<u16>("m");
}
}  // namespace
struct Want { std::string_view path; const void* at; std::size_t dim, s0, c0, s1, c1; };
void properties(const Super& s, const sv::StructView<>& view)
{
    const Want W[] = {
        {"pad", &s.pad, 0}, {"a", &s.a, 0}, {"b.x", &s.b.x, 0}, {"b.y", &s.b.y, 0}, {"pad2", &s.pad2, 0},
        {"c", &s.c, 0}, {"c.data[:].x", &s.c[0].x, 1, sizeof(Leaf), 2}, {"c.data[:].y", &s.c[0].y, 1, sizeof(Leaf), 2},
        {"v", &s.v, 0}, {"v.data[:]", s.v.data(), 1, 2, 3},
        {"o", &s.o, 0}, {"o.value()", nullptr, 0}, {"e", &s.e, 0},
        {"m", &s.m, 0}, {"m.data[:]", &s.m[0], 1, sizeof(s.m[0]), 3}, {"m.data[:].data[:]", &s.m[0][0], 2, sizeof(s.m[0]), 3, 2, 2},
    };
    vf::check(view.get_path_map_ref().size() == 16, "number of paths");
    for (auto& w : W)
    {
        auto path = path_from_string(w.path);
        vf::check(view.contains(path), "path is in the view");
        const auto t = view.at(path).offset;
        if (w.at != nullptr) vf::check(reinterpret_cast<const std::byte*>(&s) + t.base_offset == static_cast<const std::byte*>(w.at), "offset of the path");
        vf::check(t.dim == w.dim && t.strides.size() == w.dim && t.capacity.size() == w.dim, "dimension of the path");
        if (w.dim > 0) vf::check(t.strides[0] == w.s0 && t.capacity[0] == w.c0, "stride and extent");
        if (w.dim > 1) vf::check(t.strides[1] == w.s1 && t.capacity[1] == w.c1, "stride and extent");
    }
    vf::check(!view.contains(path_from_string("b")) && !view.contains(path_from_string("c.data[:]")) && !view.contains(path_from_string("zzz")), "only data paths");
}
VF_ENTRY(view)
{
    vf_allow_alloc(1);
    Super s;
    std::size_t n = vf::pick(0, 3, "n");
    bool has = vf::coin("has");
    fill(s, n, has);
    sv::StructView<> view(s);
    properties(s, view);
    vf::check(s.v.size() == n && s.o.has_value() == has, "the struct is unchanged");
    // reading through the view
    Super other;
    fill(other, 3, true);
    std::size_t i = vf::pick(0, 1, "i"), j = vf::pick(0, 2, "j");
    vf::check(view.get_field(&other, path_from_string("a"), {}) == &other.a, "scalar field");
    vf::check(view.get_field(&other, path_from_string("b.y"), {}) == &other.b.y, "nested field");
    vf::check(view.get_field(&other, path_from_string("c.data[:].y"), {i}) == &other.c[i].y, "array element field");
    vf::check(view.get_field(&other, path_from_string("v.data[:]"), {j}) == &other.v[j], "vector element");
    vf::check(view.get_field(&other, path_from_string("o.value()"), {}) == &*other.o, "optional value");
    vf::check(view.get_field(&other, path_from_string("m.data[:].data[:]"), {j, i}) == &other.m[j][i], "matrix element");
    vf::check(*static_cast<const u16*>(view.get_field(&other, path_from_string("m.data[:].data[:]"), {j, i})) == other.m[j][i], "matrix element value");
    vf_cover("view");
}
// visiting: every path, every index once, in row-major order
VF_ENTRY(visit)
{
    vf_allow_alloc(1);
    Super s;
    fill(s, 3, true);
    sv::StructView<> view(s);
    u16 v = vf::sym<u16>("new");
    std::size_t total = 0, k = 0;
    sv::for_each_field(view, static_cast<void*>(&s), [&](const sv::PathNameChain& path, const sv::PathProperties& pp, const sv::Indices& idx, void* p) {
        total++;
        vf::check(idx.size() == pp.offset.dim && p == view.get_field(&s, path, idx), "pointer of the visited element");
        if (path == path_from_string("m.data[:].data[:]"))
        {
            vf::check(k < 6 && idx[0] == k / 2 && idx[1] == k % 2, "row-major order");
            *static_cast<u16*>(p) = static_cast<u16>(v + k);
            k++;
        }
    });
    vf::check(k == 6, "every element is visited");
    vf::check(total == 5 + 1 + 2 + 2 + 1 + 3 + 2 + 1 + 1 + 3 + 6, "number of visits");
    for (std::size_t i = 0; i < 6; i++) vf::check(s.m[i / 2][i % 2] == static_cast<u16>(v + i), "writes go to the element");
    vf_cover("visit");
}
VF_ENTRY(add_paths)
{
    vf_allow_alloc(1);
    Super s;
    fill(s, vf::pick(0, 1, "n"), vf::coin("has"));
    static constexpr std::string_view P[] = {"a", "b.y", "c.data[:].x", "m.data[:].data[:]", "o.value()"};
    static constexpr std::string_view BAD[] = {"b", "q", "a.b", "c.data[:]"};
    sv::StructView<> full(s), view;
    std::size_t i = vf::pick(0, 4, "i"), j = vf::pick(0, 4, "j");
    vf::check(view.try_add_path(s, path_from_string(P[i])), "a path of the struct can be added");
    vf::check(!view.try_add_path(s, path_from_string(BAD[vf::pick(0, 3, "bad")])), "a path that is not data cannot be added");
    vf::check(view.get_path_map_ref().size() == 1, "size");
    vf::check(view.try_add_path<Super>(path_from_string(P[j])), "a path of the struct can be added");
    vf::check(view.get_path_map_ref().size() == (i == j ? 1 : 2), "size");
    for (std::size_t k = 0; k < 5; k++)
    {
        auto p = path_from_string(P[k]);
        vf::check(view.contains(p) == (k == i || k == j), "paths in the view");
        if (k == i || k == j) vf::check(view.at(p).offset == full.at(p).offset, "properties of the path");
    }
    sv::PathSet<> set;
    for (std::size_t k = 0; k < 3; k++) set.insert(path_from_string(P[k]));
    bool bad = vf::coin("with a bad path");
    if (bad) set.insert(path_from_string("zz"));
    sv::StructView<> many;
    vf::check(many.try_add_paths(s, set) == !bad, "several paths");
    vf::check(many.get_path_map_ref().size() == (bad ? 0 : 3), "all or none of the paths are added");
    vf_cover("add");
}
VF_ENTRY(sub_struct)
{
    vf_allow_alloc(1);
    Super s;
    std::size_t n = vf::pick(0, 3, "n");
    bool has = vf::coin("has");
    fill(s, n, has);
    s.e = static_cast<Color>(vf::coin("e") ? 4 : vf::coin("f") ? 5 : 1);
    Sub sub{};
    std::size_t n0 = vf::pick(0, 3, "previous size");
    sub.v.resize(n0);
    sv::StructView<> sub_view(sub), super_view(s, sub);
    sv::sub_struct_view_of(s, super_view, out{sub}, sub_view);
    vf::check(sub.a == &s.a && sub.b.y == &s.b.y && sub.c[0].y == &s.c[0].y && sub.c[1].y == &s.c[1].y, "pointers to the fields");
    vf::check(sub.v.size() == n, "vector size");
    for (std::size_t i = 0; i < n; i++) vf::check(sub.v[i] == &s.v[i] && *sub.v[i] == s.v[i], "pointers to the vector elements");
    vf::check(sub.o.has_value() == has, "optional");
    if (has) vf::check(*sub.o == &*s.o, "pointer to the optional value");
    vf::check(sub.e == (s.e == Color::RED ? "RED" : s.e == Color::GREEN ? "GREEN" : "BLUE"), "enum name");
    for (std::size_t i = 0; i < 6; i++) vf::check(sub.m[i / 2][i % 2] == &s.m[i / 2][i % 2], "pointers to the matrix elements");
    vf::check(s.v.size() == n && s.o.has_value() == has, "the struct is unchanged");
    vf_cover("sub");
}
VF_ENTRY(range_of_structs)
{
    vf_allow_alloc(1);
    struct Pt { u8 t{}; u32 a{}; u16 z{}; };
    struct PtView { const u16* z{}; const u32* a{}; };
    FixedVector<Pt, 3> c;
    std::size_t n = vf::pick(1, 3, "n");
    for (std::size_t i = 0; i < n; i++) c.push_back({vf::sym<u8>("t"), vf::sym<u32>("a"), vf::sym<u16>("z")});
    sv::ContiguousRangeSubStructView<PtView> r(c);
    vf::check(r.size() == n, "size");
    std::size_t k = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++k)
    {
        PtView p = *it;
        vf::check(k < n && p.z == &c[k].z && p.a == &c[k].a, "element of the range");
        vf::check(r.at(k).z == &c[k].z, "element by index");
        vf::check(it - r.begin() == static_cast<std::ptrdiff_t>(k), "distance");
    }
    vf::check(k == n, "every element is visited");
    vf_cover("range");
}
