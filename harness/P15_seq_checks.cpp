// BOUNDS: FixedVector, FixedDeque (every window start), FixedList (slots reused), FixedCircularDeque, FixedString, FixedStack, FixedQueue, FixedCircularQueue with a recording policy, CAP 0, 1 and 3 (thorough 5), elements u16 and NT; every size; indices, counts and capacities are arbitrary 64-bit values; ranges (forward, single pass, list) up to CAP+2 long; inverted and overlong erase ranges; default abort policy
// OUTSIDE: source_location contents; range assignment and single-pass ranges are only required to report, not to keep the old elements (they clear or append first, like the bulk operations of std)
// ASSUME: the policy functions do not return (as their documentation requires)
#include "seq_ops.h"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
using namespace seq;
using Loc = std_transition::source_location;
enum What { NONE, OOR, LEN, EMPTY, INVALID };
struct Exp
{
    static inline int what;
    static inline u64 a, b;
    static inline void (*intact)(void*);
    static inline void* ctx;
    static void set(int w, u64 x = 0, u64 y = 0) { what = w; a = x; b = y; }
    [[noreturn]] static void report(int w, u64 x, u64 y)
    {
        vf::check(what != NONE, "reported an operation that is within limits");
        vf::check(what == NONE || what == w, "reported with the right category");
        if (what == w)
        {
            if (w == OOR) { vf::check(a == x, "reported index"); vf::check(b == y, "reported size"); }
            if (w == LEN) vf::check(a == x, "reported requested size");
        }
        if (intact) intact(ctx);
        vf_cover("reported");
        vf_end();
    }
    // the operation returned without a report
    static void done() { vf::check(what == NONE, "misuse was not reported"); what = NONE; vf_cover("not reported"); }
};
struct Rec
{
    [[noreturn]] static void out_of_range(std::size_t i, std::size_t n, const Loc&) { Exp::report(OOR, i, n); }
    [[noreturn]] static void length_error(std::size_t n, const Loc&) { Exp::report(LEN, n, 0); }
    [[noreturn]] static void empty_container_access(const Loc&) { Exp::report(EMPTY, 0, 0); }
    [[noreturn]] static void invalid_argument(const StringLiteral&, const Loc&) { Exp::report(INVALID, 0, 0); }
};
template <Kind K, class C> struct Ctx { C* c; Seq* m; static void chk(void* p) { auto& x = *static_cast<Ctx*>(p); agree<K>(*x.c, *x.m); } };
#ifdef VF_DEEP
constexpr size_t CAP = 5;
#else
constexpr size_t CAP = 3;
#endif

enum { A_AT, A_SUB, A_FRONT, A_BACK, A_POPB, A_POPF, A_PUSHB, A_PUSHF, A_INS, A_INSR, A_ASSN, A_ASSR, A_RESIZE, A_RESERVE, A_ERASE, A_CTOR, A_COUNT };

template <Kind K, class C>
void misuse()
{
    using T = typename C::value_type;
    constexpr size_t M = C::static_max_size();
    constexpr bool CIRC = K == Kind::CIRCULAR;
    C c{};
    Seq m;
    build<K>(c, m, M, M);
    Ctx<K, C> ctx{&c, &m};
    Exp::intact = &Ctx<K, C>::chk;
    Exp::ctx = &ctx;
    Exp::set(NONE);
    const C& q = c;
    const T e(vf::sym<u16>("e"));
    auto one = [&] { Exp::set(m.n == M && !CIRC ? LEN : NONE, M + 1); };
    auto nonempty = [&] { Exp::set(m.n == 0 ? EMPTY : NONE); };
    auto quiet = [&] { Exp::intact = nullptr; };  // the elements legitimately differ from here on
    switch (vf::pick(0, A_COUNT - 1, "op"))
    {
    case A_AT:
        if constexpr (requires { c.at(0); })
        {
            u64 i = vf::sym<u64>("i");
            Exp::set(i < m.n ? NONE : OOR, i, m.n);
            if (vf::coin()) (void)c.at(i); else (void)q.at(i);
        }
        break;
    case A_SUB:
        if constexpr (requires { c[0]; })
        {
            u64 i = vf::sym<u64>("i");
            Exp::set(i < m.n ? NONE : OOR, i, m.n);
            if (vf::coin()) (void)c[i]; else (void)q[i];
        }
        break;
    case A_FRONT: nonempty(); if (vf::coin()) (void)c.front(); else (void)q.front(); break;
    case A_BACK: nonempty(); if (vf::coin()) (void)c.back(); else (void)q.back(); break;
    case A_POPB: nonempty(); c.pop_back(); break;
    case A_POPF: if constexpr (requires { c.pop_front(); }) { nonempty(); c.pop_front(); } break;
    case A_PUSHB:
        if (CIRC && M == 0) vf_end();
        one();
        switch (vf::pick(0, 2, "h")) { case 0: c.push_back(e); break; case 1: c.push_back(T(e)); break; case 2: c.emplace_back(e); break; }
        break;
    case A_PUSHF:
        if (CIRC && M == 0) vf_end();
        if constexpr (requires { c.push_front(e); })
        {
            one();
            switch (vf::pick(0, 2, "h")) { case 0: c.push_front(e); break; case 1: c.push_front(T(e)); break; case 2: c.emplace_front(e); break; }
        }
        break;
    case A_INS:
    {
        if (CIRC && M == 0) vf_end();
        auto it = std::next(c.cbegin(), static_cast<std::ptrdiff_t>(vf::pick(0, m.n, "p")));
        one();
        switch (vf::pick(0, 2, "h")) { case 0: c.insert(it, e); break; case 1: c.insert(it, T(e)); break; case 2: c.emplace(it, e); break; }
        break;
    }
    case A_INSR:
    {
        if (CIRC && M == 0) vf_end();
        auto it = std::next(c.cbegin(), static_cast<std::ptrdiff_t>(vf::pick(0, m.n, "p")));
        size_t k = vf::pick(0, M + 2, "k");
        T src[M + 2];
        Exp::set(m.n + k > M && !CIRC ? LEN : NONE, m.n + k);
        switch (vf::pick(0, 2, "h"))
        {
        case 0: c.insert(it, static_cast<const T*>(src), static_cast<const T*>(src) + k); break;
        case 1: { Stream<T> s{src, k}; quiet(); c.insert(it, InIt<T>{&s}, InIt<T>{}); break; }
        case 2: if (k == 2) c.insert(it, {e, e}); else vf_end(); break;
        }
        break;
    }
    case A_ASSN:
    {
        u64 n = vf::sym<u64>("n");
        Exp::set(n > M && !CIRC ? LEN : NONE, n);
        c.assign(n, e);
        break;
    }
    case A_ASSR:
    {
        size_t k = vf::pick(0, M + 2, "k");
        if (CIRC && M == 0) vf_end();
        T src[M + 2];
        quiet();
        Exp::set(k > M && !CIRC ? LEN : NONE, k);
        switch (vf::pick(0, 2, "h"))
        {
        case 0: c.assign(static_cast<const T*>(src), static_cast<const T*>(src) + k); break;
        case 1: { Stream<T> s{src, k}; c.assign(InIt<T>{&s}, InIt<T>{}); break; }
        case 2: if (k == 2) c.assign({e, e}); else vf_end(); break;
        }
        break;
    }
    case A_RESIZE:
    {
        u64 n = vf::sym<u64>("n");
        Exp::set(n > M ? LEN : NONE, n);
        if (vf::coin()) c.resize(n); else c.resize(n, e);
        break;
    }
    case A_RESERVE:
        if constexpr (requires { c.reserve(1); })
        {
            u64 n = vf::sym<u64>("n");
            Exp::set(n > M ? LEN : NONE, n);
            c.reserve(n);
        }
        break;
    case A_ERASE:
        if (M == 0) vf_end();  // forming an iterator past the end of an empty array is itself undefined
        if constexpr (K != Kind::LIST)
        {
            if (vf::coin())
            {
                auto a = c.cbegin() + static_cast<std::ptrdiff_t>(vf::pick(0, m.n, "p")), b = c.cbegin() + static_cast<std::ptrdiff_t>(vf::pick(0, m.n + 1, "p"));
                Exp::set(a > b || b > c.cend() ? INVALID : NONE);
                c.erase(a, b);
            }
            else
            {
                auto a = c.cbegin() + static_cast<std::ptrdiff_t>(vf::pick(0, m.n, "p"));
                Exp::set(a == c.cend() ? INVALID : NONE);
                c.erase(a);
            }
        }
        else
        {
            auto a = std::next(c.cbegin(), static_cast<std::ptrdiff_t>(vf::pick(0, m.n, "p")));
            Exp::set(a == c.cend() ? INVALID : NONE);
            c.erase(a);
        }
        break;
    case A_CTOR:
    {
        quiet();
        if (vf::coin())
        {
            u64 n = vf::sym<u64>("n");
            Exp::set(n > M && !CIRC ? LEN : NONE, n);
            if (vf::coin()) { C d(n, e); Exp::done(); } else { C d(n); Exp::done(); }
        }
        else
        {
            if (CIRC && M == 0) vf_end();
            size_t k = vf::pick(0, M + 2, "k");
            T src[M + 2];
            Exp::set(k > M && !CIRC ? LEN : NONE, k);
            switch (vf::pick(0, 2, "h"))
            {
            case 0: { C d(static_cast<const T*>(src), static_cast<const T*>(src) + k); Exp::done(); break; }
            case 1: { Stream<T> s{src, k}; C d(InIt<T>{&s}, InIt<T>{}); Exp::done(); break; }
            case 2: if (k == 2) { C d{e, e}; Exp::done(); } else vf_end(); break;
            }
        }
        break;
    }
    }
    Exp::done();
}
#define SUITE(NAME, KIND, TMPL)                                                        \
    VF_ENTRY(NAME##_u16__w3) { misuse<Kind::KIND, TMPL<u16, CAP, Rec>>(); }            \
    VF_ENTRY(NAME##_nt__w3) { misuse<Kind::KIND, TMPL<NT, CAP, Rec>>(); }              \
    VF_ENTRY(NAME##_cap1) { misuse<Kind::KIND, TMPL<NT, 1, Rec>>(); }                  \
    VF_ENTRY(NAME##_cap0) { misuse<Kind::KIND, TMPL<u16, 0, Rec>>(); }
SUITE(vector, VECTOR, FixedVector)
SUITE(deque, DEQUE, FixedDeque)
SUITE(list, LIST, FixedList)
SUITE(circular, CIRCULAR, FixedCircularDeque)

// strings
template <size_t M> struct SCtx
{
    FixedString<M, Rec>* s; char a[M + 1]; size_t n;
    static void chk(void* p)
    {
        auto& x = *static_cast<SCtx*>(p);
        vf::check(x.s->size() == x.n, "string size at report");
        for (size_t i = 0; i < x.n; i++) vf::check(x.s->data()[i] == x.a[i], "string characters at report");
        vf::check(x.s->data()[x.n] == 0, "terminator at report");
    }
};
template <size_t M>
void string_()
{
    FixedString<M, Rec> s{};
    const auto& q = s;
    SCtx<M> x{&s, {}, 0};
    size_t n = vf::pick(0, M, "n");
    for (size_t i = 0; i < n; i++) { x.a[i] = static_cast<char>(vf::sym<u8>("c")); s.push_back(x.a[i]); }
    x.n = n;
    Exp::intact = &SCtx<M>::chk;
    Exp::ctx = &x;
    Exp::set(NONE);
    char ch = static_cast<char>(vf::sym<u8>("c"));
    char src[M + 3];
    size_t k = 0;
    auto pos = [&] { return s.cbegin() + static_cast<std::ptrdiff_t>(vf::pick(0, n, "p")); };
    auto mk = [&] { k = vf::pick(0, M + 2, "k"); for (size_t i = 0; i < k; i++) src[i] = static_cast<char>(1 + (vf::sym<u8>("c") & 63)); src[k] = 0; };
    switch (vf::pick(0, 16, "op"))
    {
    case 0: { u64 i = vf::sym<u64>("i"); Exp::set(i < n ? NONE : OOR, i, n); if (vf::coin()) (void)s.at(i); else (void)q.at(i); break; }
    case 1: { u64 i = vf::sym<u64>("i"); Exp::set(i < n ? NONE : OOR, i, n); if (vf::coin()) (void)s[i]; else (void)q[i]; break; }
    case 2: Exp::set(n ? NONE : EMPTY); if (vf::coin()) (void)s.front(); else (void)q.front(); break;
    case 3: Exp::set(n ? NONE : EMPTY); if (vf::coin()) (void)s.back(); else (void)q.back(); break;
    case 4: Exp::set(n ? NONE : EMPTY); s.pop_back(); break;
    case 5: Exp::set(n == M ? LEN : NONE, M + 1); if (vf::coin()) s.push_back(ch); else s += ch; break;
    case 6: { auto p = pos(); Exp::set(n == M ? LEN : NONE, M + 1); s.insert(p, ch); break; }
    case 7: { auto p = pos(); mk(); Exp::set(n + k > M ? LEN : NONE, n + k); if (vf::coin()) s.insert(p, std::string_view(src, k)); else s.insert(p, static_cast<const char*>(src), static_cast<const char*>(src) + k); break; }
    case 8: { mk(); Exp::set(n + k > M ? LEN : NONE, n + k); switch (vf::pick(0, 3, "h")) { case 0: s.append(std::string_view(src, k)); break; case 1: s += std::string_view(src, k); break; case 2: s += static_cast<const char*>(src); break; case 3: s.append(static_cast<const char*>(src), static_cast<const char*>(src) + k); break; } break; }
    case 9: { u64 c = vf::sym<u64>("n"); Exp::set(c > M ? LEN : NONE, c); s.assign(c, ch); break; }
    case 10: { mk(); Exp::intact = nullptr; Exp::set(k > M ? LEN : NONE, k); switch (vf::pick(0, 2, "h")) { case 0: s.assign(std::string_view(src, k)); break; case 1: s = static_cast<const char*>(src); break; case 2: s.assign(static_cast<const char*>(src), static_cast<const char*>(src) + k); break; } break; }
    case 11: { u64 c = vf::sym<u64>("n"); Exp::set(c > M ? LEN : NONE, c); if (vf::coin()) s.resize(c); else s.resize(c, ch); break; }
    case 12: { u64 c = vf::sym<u64>("n"); Exp::set(c > M ? LEN : NONE, c); s.reserve(c); break; }
    case 13: { u64 p = vf::sym<u64>("p"), l = vf::sym<u64>("l"); Exp::set(p > n ? OOR : NONE, p, n); (void)q.substr(p, l); break; }
    case 14: { u64 c = vf::sym<u64>("n"); Exp::intact = nullptr; Exp::set(c > M ? LEN : NONE, c); FixedString<M, Rec> d(c, ch); break; }
    case 15: { mk(); Exp::intact = nullptr; Exp::set(k > M ? LEN : NONE, k); if (vf::coin()) { FixedString<M, Rec> d(std::string_view(src, k)); } else { FixedString<M, Rec> d(static_cast<const char*>(src)); } break; }
    case 16:
    {
        auto a = pos(), b = s.cbegin() + static_cast<std::ptrdiff_t>(vf::pick(0, n + 1, "q"));
        Exp::set(a > b || b > s.cend() ? INVALID : NONE);
        s.erase(a, b);
        break;
    }
    }
    Exp::done();
}
VF_ENTRY(string__w2) { string_<CAP>(); }
VF_ENTRY(string_cap1) { string_<1>(); }
VF_ENTRY(string_cap0) { string_<0>(); }

// adapters
template <class A, bool CIRC, size_t M>
void adapter()
{
    A a{};
    size_t n = 0;
    Exp::intact = nullptr;
    Exp::set(NONE);
    for (size_t s = 0; s < M + 3; s++)
    {
        const A& q = a;
        switch (vf::pick(0, 3, "op"))
        {
        case 0:
            Exp::set(n == M && !CIRC ? LEN : NONE, M + 1);
            switch (vf::pick(0, 2, "h")) { case 0: { const u16 x = 7; a.push(x); break; } case 1: a.push(u16{7}); break; case 2: a.emplace(u16{7}); break; }
            if (n < M) n++;
            break;
        case 1: Exp::set(n ? NONE : EMPTY); a.pop(); n--; break;
        case 2: Exp::set(n ? NONE : EMPTY); if constexpr (requires { a.top(); }) (void)a.top(); else (void)a.front(); break;
        case 3: Exp::set(n ? NONE : EMPTY); if constexpr (requires { a.top(); }) (void)q.top(); else (void)q.back(); break;
        }
        Exp::done();
        vf::check(a.size() == n, "adapter size");
    }
}
VF_ENTRY(stack) { adapter<FixedStack<u16, 2, Rec>, false, 2>(); }
VF_ENTRY(queue) { adapter<FixedQueue<u16, 2, Rec>, false, 2>(); }
VF_ENTRY(circular_queue) { adapter<FixedCircularQueue<u16, 2, Rec>, true, 2>(); }
template <class A>
void adapter_range(bool circ)
{
    u16 src[5] = {};
    size_t k = vf::pick(0, 5, "k");
    Exp::intact = nullptr;
    Exp::set(k > 3 && !circ ? LEN : NONE, k);
    if (vf::coin()) { A a(static_cast<const u16*>(src), static_cast<const u16*>(src) + k); Exp::done(); }
    else { Stream<u16> s{src, k}; A a(InIt<u16>{&s}, InIt<u16>{}); Exp::done(); }
}
VF_ENTRY(stack_range) { adapter_range<FixedStack<u16, 3, Rec>>(false); }
VF_ENTRY(queue_range) { adapter_range<FixedQueue<u16, 3, Rec>>(false); }
VF_ENTRY(circular_queue_range) { adapter_range<FixedCircularQueue<u16, 3, Rec>>(true); }

// the default policy stops the program
VF_ENTRY(default_policy)
{
    FixedVector<u16, 2> v{};
    FixedDeque<u16, 2> d{};
    FixedList<u16, 2> l{};
    FixedString<2> s{};
    size_t n = vf::pick(0, 2, "n");
    for (size_t i = 0; i < n; i++) { v.push_back(1); d.push_back(1); l.push_back(1); s.push_back('a'); }
    u64 i = vf::sym<u64>("i");
    vf_assume(i >= n);
    vf_expect_abort(1);
    switch (vf::pick(0, 7, "op"))
    {
    case 0: (void)v.at(i); break;
    case 1: (void)d.at(i); break;
    case 2: (void)s.at(i); break;
    case 3: if (n) vf_end(); (void)v.back(); break;
    case 4: if (n) vf_end(); d.pop_front(); break;
    case 5: if (n) vf_end(); (void)l.front(); break;
    case 6: if (n < 2) vf_end(); l.push_back(1); break;
    case 7: l.erase(l.cend()); break;
    }
    vf_expect_abort(0);
    vf::check(false, "the default policy aborts");
}
