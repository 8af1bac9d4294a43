// BOUNDS: capacity 260 holding 255, 256, 257, 259 or 260 elements: indices, counts and range lengths around the size, the capacity and the values at which 8-, 16- and 32-bit integers wrap; what is reported and what is not, all sequence containers and strings
#include "seq_ops.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using Loc = std_transition::source_location;
enum What { NONE, OOR, LEN, EMPTY, INVALID };
constexpr size_t N = 260;
struct Exp
{
    static inline int what;
    static inline u64 a, b;
    static inline void (*intact)(void*);
    static inline void* ctx;
    static void set(int w, u64 x = 0, u64 y = 0) { what = w; a = x; b = y; }
    [[noreturn]] static void report(int w, u64 x, u64 y)
    {
        vf::check(what != NONE, "reported an operation that is within limits");
        vf::check(what == NONE || what == w, "reported with the right category");
        if (what == w)
        {
            if (w == OOR) { vf::check(a == x, "reported index"); vf::check(b == y, "reported size"); }
            if (w == LEN) vf::check(a == x, "reported requested size");
        }
        if (intact) intact(ctx);
        vf_cover("reported");
        vf_end();
    }
    static void done() { vf::check(what == NONE, "misuse was not reported"); vf_cover("not reported"); }
};
struct Rec
{
    [[noreturn]] static void out_of_range(std::size_t i, std::size_t n, const Loc&) { Exp::report(OOR, i, n); }
    [[noreturn]] static void length_error(std::size_t n, const Loc&) { Exp::report(LEN, n, 0); }
    [[noreturn]] static void empty_container_access(const Loc&) { Exp::report(EMPTY, 0, 0); }
    [[noreturn]] static void invalid_argument(const StringLiteral&, const Loc&) { Exp::report(INVALID, 0, 0); }
};
template <class C>
struct Ctx
{
    C* c;
    size_t n;
    static void chk(void* p)
    {
        auto& x = *static_cast<Ctx*>(p);
        vf::check(x.c->size() == x.n, "the container is unchanged when it reports");
        size_t i = 0;
        for (const auto& e : *x.c) { vf::check(e == static_cast<typename C::value_type>(i % 100), "the elements are unchanged when it reports"); i++; }
        vf::check(i == x.n, "the elements are unchanged when it reports");
    }
};
constexpr u64 INDEX[] = {0, 254, 255, 256, 257, 258, 259, 260, 261, 511, 512, 515, 65535, 65536, 65791, u64{1} << 32, (u64{1} << 32) + 255, u64{1} << 63, ~u64{0}};
constexpr u64 COUNT[] = {0, 1, 254, 255, 256, 257, 259, 260, 261, 262, 511, 512, 65536, 65791, u64{1} << 32, (u64{1} << 32) + 3, ~u64{0} - 300, ~u64{0}};
constexpr size_t SIZES[] = {255, 256, 257, 259, 260};
template <class C, bool CIRC>
void misuse()
{
    using T = typename C::value_type;
    static T src[8];
    C c{};
    size_t n = SIZES[vf::pick(0, 4, "size")];
    if (vf::coin("rot"))
    {
        if constexpr (requires { c.pop_front(); })
            for (int i = 0; i < 250; i++) { c.push_back(T(1)); c.pop_front(); }
        else vf_end();
    }
    for (size_t i = 0; i < n; i++) c.push_back(static_cast<T>(i % 100));
    Ctx<C> ctx{&c, n};
    Exp::ctx = &ctx;
    Exp::intact = &Ctx<C>::chk;
    Exp::set(NONE);
    const T e = static_cast<T>(vf::sym<u16>("e"));
    auto at = [&](size_t p) { auto it = c.cbegin(); for (size_t i = 0; i < p; i++) ++it; return it; };
    auto grow = [&](size_t k) { Exp::set(!CIRC && n + k > N ? LEN : NONE, n + k); };
    switch (vf::pick(0, 7, "op"))
    {
    case 0:
        if constexpr (requires { c.at(0); })
        {
            u64 i = INDEX[vf::pick(0, std::size(INDEX) - 1, "i")];
            Exp::set(i < n ? NONE : OOR, i, n);
            const C& q = c;
            T got{};
            switch (vf::pick(0, 3, "h")) { case 0: got = c.at(i); break; case 1: got = q.at(i); break; case 2: got = c[i]; break; case 3: got = q[i]; break; }
            vf::check(got == static_cast<T>(i % 100), "element at an index within limits");
        }
        else vf_end();
        break;
    case 1: grow(1); c.push_back(e); break;
    case 2:
        if constexpr (requires { c.push_front(e); }) { grow(1); c.push_front(e); }
        else vf_end();
        break;
    case 3: grow(1); c.insert(at(vf::coin("front") ? 0 : n - 1), e); break;
    case 4: { size_t k = vf::pick(0, 6, "k"); grow(k); c.insert(at(n / 2), src, src + k); break; }
    case 5:
    {
        u64 k = COUNT[vf::pick(0, std::size(COUNT) - 1, "k")];
        Exp::set(k > N ? LEN : NONE, k);
        if (vf::coin("value")) c.resize(k, e); else c.resize(k);
        vf::check(c.size() == k, "size after resize");
        break;
    }
    case 6:
    {
        u64 k = COUNT[vf::pick(0, std::size(COUNT) - 1, "k")];
        Exp::set(!CIRC && k > N ? LEN : NONE, k);
        c.assign(k, e);
        vf::check(c.size() == (k < N ? k : N), "size after assign");
        break;
    }
    case 7:
        c.clear();
        Exp::intact = nullptr;
        Exp::set(EMPTY);
        switch (vf::pick(0, 2, "h")) { case 0: (void)c.front(); break; case 1: (void)c.back(); break; case 2: c.pop_back(); break; }
        break;
    }
    Exp::done();
}
VF_ENTRY(big_vector__w3) { misuse<FixedVector<u16, N, Rec>, false>(); }
VF_ENTRY(big_deque__w5) { misuse<FixedDeque<u16, N, Rec>, false>(); }
VF_ENTRY(big_circular__w5) { misuse<FixedCircularDeque<u16, N, Rec>, true>(); }
VF_ENTRY(big_list__w5) { misuse<FixedList<u16, N, Rec>, false>(); }
VF_ENTRY(big_string__w3) { misuse<FixedString<N, Rec>, false>(); }
template <class C>
void adapters()
{
    C c{};
    size_t n = SIZES[vf::pick(0, 4, "size")];
    for (size_t i = 0; i < n; i++) c.push(static_cast<u16>(i));
    Exp::intact = nullptr;
    Exp::set(n == N ? LEN : NONE, N + 1);
    if (vf::coin("emplace")) c.emplace(u16{1}); else c.push(u16{1});
    vf::check(c.size() == n + 1, "size");
    for (size_t i = 0; i <= n; i++) c.pop();
    Exp::set(EMPTY);
    c.pop();
    Exp::done();
}
VF_ENTRY(big_stack) { adapters<FixedStack<u16, N, Rec>>(); }
VF_ENTRY(big_queue) { adapters<FixedQueue<u16, N, Rec>>(); }
