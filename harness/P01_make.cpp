// COVER: own
// BOUNDS: make_fixed_vector of 0, 1, 3 and 4 symbolic elements; FixedVector::Builder: every sequence of 3 steps over all overloads (lvalue and rvalue builder), up to 2 symbolic elements per step, copied and moved out
#include "make_seq.h"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using seq::Kind;
MAKERS(Kind::VECTOR, make_fixed_vector)
template <class T>
void builder()
{
    using C = FixedVector<T, 6>;
    typename C::Builder b{};
    Seq m;
    for (int s = 0; s < 3; s++)
    {
        const u16 x = vf::sym<u16>("x"), y = vf::sym<u16>("y");
        const T a[2] = {x, y};
        const size_t k = vf::pick(0, 2, "k");
        Seq add;
        const size_t op = vf::pick(0, 7, "op");
        using B = typename C::Builder;
        B* r = nullptr;
        switch (op)
        {
        case 0: r = &b.push_back(a[0]); add.push_back(x); break;
        case 1: { B&& q = std::move(b).push_back(a[0]); r = &q; add.push_back(x); break; }
        case 2: r = &b.push_back_all({a[0], a[1]}); add.push_back(x); add.push_back(y); break;
        case 3: { B&& q = std::move(b).push_back_all({a[0], a[1]}); r = &q; add.push_back(x); add.push_back(y); break; }
        case 4: r = &b.push_back_all(FwdIt<T>{a}, FwdIt<T>{a + k}); break;
        case 5: { B&& q = std::move(b).push_back_all(FwdIt<T>{a}, FwdIt<T>{a + k}); r = &q; break; }
        case 6: { FixedVector<T, 2> d(a, a + k); r = &b.push_back_all(d); break; }
        default: { FixedVector<T, 2> d(a, a + k); B&& q = std::move(b).push_back_all(d); r = &q; break; }
        }
        if (op >= 4)
        {
            if (k > 0) add.push_back(x);
            if (k > 1) add.push_back(y);
        }
        vf::check(r == &b, "builder returns itself");
        for (size_t i = 0; i < add.n; i++) m.push_back(add.a[i]);
    }
    C c = b.build();
    seq::agree<Kind::VECTOR>(c, m);
    C d = std::move(b).build();
    seq::agree<Kind::VECTOR>(d, m);
    seq::agree<Kind::VECTOR>(c, m);
    vf_cover("builder");
}
VF_ENTRY(builder_u16__w2) { builder<u16>(); }
VF_ENTRY(builder_nt__w2) { builder<NT>(); }
