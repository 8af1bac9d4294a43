// COVER: own
// BOUNDS: capacity 260 with 255, 256 and 260 symbolic characters: every kind of edit at positions and with counts at which narrow integers wrap; and a string of 65540 characters filled across 65535, read, erased from and popped there
#define VF_BIG 260
#include "types.h"
#include "fixed_containers/fixed_string.hpp"
using namespace fixed_containers;
constexpr size_t N = VF_BIG;
VF_ENTRY(big_edit__w3)
{
    static char src[N + 1], tail[N + 1];
    for (size_t i = 0; i < N; i++) { src[i] = vf::sym<char>("c"); tail[i] = static_cast<char>('a' + i % 26); }
    const size_t sizes[] = {3, 255, 256, N};
    const size_t n = sizes[vf::pick(0, 3, "n")];
    FixedString<N> c(std::string_view(src, n));
    Seq m;
    for (size_t i = 0; i < n; i++) m.push_back(static_cast<u8>(src[i]));
    const size_t room = N - n;
    auto ins = [&](size_t p, size_t k) { for (size_t i = 0; i < k; i++) m.insert(p + i, static_cast<u8>(tail[i])); };
    switch (vf::pick(0, 9, "op"))
    {
    case 0: { size_t k = vf::pick(0, room, "k"); c.append(std::string_view(tail, k)); ins(m.n, k); break; }
    case 1: { size_t k = vf::pick(0, room, "k"), p = vf::pick(0, n, "p"); auto it = c.insert(std::next(c.cbegin(), static_cast<std::ptrdiff_t>(p)), tail, tail + k); vf::check(it == std::next(c.begin(), static_cast<std::ptrdiff_t>(p)), "insert result"); ins(p, k); break; }
    case 2: { size_t p = vf::pick(0, n, "p"), q = vf::pick(p, n, "q"); c.erase(std::next(c.cbegin(), static_cast<std::ptrdiff_t>(p)), std::next(c.cbegin(), static_cast<std::ptrdiff_t>(q))); m.erase(p, q - p); break; }
    case 3: { size_t k = vf::pick(0, N, "k"); char x = vf::sym<char>("x"); c.resize(k, x); m.resize(k, static_cast<u8>(x)); break; }
    case 4: { size_t k = vf::pick(0, N, "k"); c.assign(std::string_view(tail, k)); m.n = 0; ins(0, k); break; }
    case 5: { size_t k = vf::pick(0, N, "k"); char x = vf::sym<char>("x"); c.assign(k, x); m.n = 0; m.resize(k, static_cast<u8>(x)); break; }
    case 6: if (room) { char x = vf::sym<char>("x"); c.push_back(x); m.push_back(static_cast<u8>(x)); } break;
    case 7: c.pop_back(); m.n--; break;
    case 8: { size_t p = vf::pick(0, n, "p"), k = vf::pick(0, N, "k"); auto s = c.substr(p, k); size_t l = n - p < k ? n - p : k; vf::check(s.size() == l, "substr size"); bool ok = true; for (size_t i = 0; i < l; i++) ok = ok && s[i] == src[p + i]; vf::check(ok, "substr"); break; }
    case 9: { size_t k = vf::pick(0, N, "k"); FixedString<N> d(k, 'z'); vf::check(d.size() == k && d.c_str()[k] == 0, "constructed"); break; }
    }
    vf::check(c.size() == m.n && c.length() == m.n && c.empty() == (m.n == 0) && is_full(c) == (m.n == N), "size");
    for (size_t i = 0; i < m.n; i++) vf::check(static_cast<u8>(c[i]) == m.a[i], "character");
    vf::check(c.c_str()[m.n] == 0, "terminator");
    vf::check(std::string_view(c).size() == m.n && static_cast<size_t>(c.end() - c.begin()) == m.n, "view");
    vf_cover("big edit");
}
#include "huge.h"
VF_ENTRY(big_huge__w9) { huge::seq<FixedString<huge::N>>(); }
