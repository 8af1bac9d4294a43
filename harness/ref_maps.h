// maps whose mapped type is a reference: entries denote the very objects they were inserted with
#pragma once
#include "assoc_ops.h"
namespace refs
{
constexpr size_t P = 3;
// every history of `steps` operations over three keys and three referents
template <class C, class F>
void run(F key, size_t steps)
{
    using V = typename C::mapped_type;
    u16 obj[P];
    for (auto& o : obj) o = vf::sym<u16>("o");
    size_t bound[3] = {P, P, P};  // P: absent
    auto look = [&](auto& c)
    {
        const auto& q = c;
        size_t n = 0;
        for (size_t k = 0; k < 3; k++)
        {
            n += bound[k] != P;
            vf::check(q.contains(key(k)) == (bound[k] != P), "contains");
            if (bound[k] != P)
            {
                vf::check(&q.at(key(k)) == &obj[bound[k]], "the entry denotes the object it was inserted with");
                vf::check(&c.at(key(k)) == &obj[bound[k]], "the entry denotes the object it was inserted with");
                vf::check(&q.find(key(k))->second == &obj[bound[k]], "find");
            }
            else vf::check(q.find(key(k)) == q.cend(), "find");
        }
        vf::check(q.size() == n, "size");
        size_t seen = 0;
        for (const auto& e : q)
        {
            for (size_t k = 0; k < 3; k++)
                if (e.first == key(k)) { vf::check(bound[k] != P && &e.second == &obj[bound[k]], "iteration"); seen++; }
        }
        vf::check(seen == n, "iteration");
    };
    C c{};
    for (size_t s = 0; s < steps; s++)
    {
        const size_t k = vf::pick(0, 2, "k");
        size_t r = 0;
        const size_t op = vf::pick(0, 9, "op");
        if (op < 4) r = vf::pick(0, P - 1, "r");
        V ref = obj[r];
        const size_t before = bound[k];
        switch (op)
        {
        case 0: { auto x = c.insert({key(k), ref}); vf::check(x.second == (before == P), "insert"); if (before == P) bound[k] = r; break; }
        case 1: { auto x = c.emplace(key(k), ref); vf::check(x.second == (before == P), "emplace"); if (before == P) bound[k] = r; break; }
        case 2: { auto x = c.try_emplace(key(k), ref); vf::check(x.second == (before == P) && &x.first->second == &obj[before == P ? r : before], "try_emplace"); if (before == P) bound[k] = r; break; }
        case 3: { C d{{key(k), ref}}; c = d; bound[0] = bound[1] = bound[2] = P; bound[k] = r; break; }
        case 4: vf::check(c.erase(key(k)) == (before != P ? 1u : 0u), "erase"); bound[k] = P; break;
        case 5: if (before == P) vf_end(); c.erase(c.find(key(k))); bound[k] = P; break;
        case 6: c.clear(); bound[0] = bound[1] = bound[2] = P; break;
        case 7: { C d = c; look(d); c.clear(); c = std::move(d); break; }
        case 8:
            for (auto& o : obj) o = vf::sym<u16>("o2");  // writes to the objects show through
            if constexpr (!std::is_const_v<std::remove_reference_t<V>>)
                if (before != P) { const u16 w = vf::sym<u16>("w"); c.at(key(k)) = w; vf::check(obj[before] == w, "writes go through"); }
            break;
        default:
        {
            C d = c;
            bool same = c == d;
            vf::check(same, "a copy is equal");
            if (before != P) { d.erase(key(k)); d.insert({key(k), obj[(before + 1) % P]}); vf::check((c == d) == (obj[before] == obj[(before + 1) % P]), "equality compares the objects"); }
        }
        }
        look(c);
    }
    vf_cover("reference values");
}
}
