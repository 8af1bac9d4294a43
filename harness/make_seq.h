// make_fixed_*: the capacity is the number of elements passed
#pragma once
#include "seq_ops.h"
#define MAKERS(KIND, MAKE)                                                                                   \
    template <class T>                                                                                       \
    void makers()                                                                                            \
    {                                                                                                        \
        u16 v[4];                                                                                            \
        Seq m;                                                                                               \
        for (auto& x : v) x = vf::sym<u16>("v");                                                             \
        switch (vf::pick(0, 3, "n"))                                                                         \
        {                                                                                                    \
        case 0:                                                                                              \
        {                                                                                                    \
            auto c = MAKE<T>(std::array<T, 0>{});                                                            \
            vf::check(c.max_size() == 0, "capacity");                                                        \
            seq::agree<KIND>(c, m);                                                                          \
            break;                                                                                           \
        }                                                                                                    \
        case 1:                                                                                              \
        {                                                                                                    \
            auto c = MAKE<T>({T(v[0])});                                                                     \
            m.push_back(v[0]);                                                                               \
            vf::check(c.max_size() == 1, "capacity");                                                        \
            seq::agree<KIND>(c, m);                                                                          \
            break;                                                                                           \
        }                                                                                                    \
        case 2:                                                                                              \
        {                                                                                                    \
            T a[4] = {v[0], v[1], v[2], v[3]};                                                               \
            auto c = MAKE(a);                                                                                \
            for (u16 x : v) m.push_back(x);                                                                  \
            vf::check(c.max_size() == 4, "capacity");                                                        \
            seq::agree<KIND>(c, m);                                                                          \
            break;                                                                                           \
        }                                                                                                    \
        default:                                                                                             \
        {                                                                                                    \
            T a[3] = {v[0], v[1], v[2]};                                                                     \
            auto c = MAKE<T, fixed_containers::customize::SequenceContainerAbortChecking<T, 3>, 3>(a);       \
            for (int i = 0; i < 3; i++) m.push_back(v[i]);                                                   \
            vf::check(c.max_size() == 3, "capacity");                                                        \
            seq::agree<KIND>(c, m);                                                                          \
        }                                                                                                    \
        }                                                                                                    \
        vf_cover("make");                                                                                    \
    }                                                                                                        \
    VF_ENTRY(make_u16) { makers<u16>(); }                                                                    \
    VF_ENTRY(make_nt) { makers<NT>(); }
