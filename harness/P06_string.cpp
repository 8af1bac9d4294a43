// BOUNDS: FixedString<CAP>, CAP in {0,1,2,4} (thorough {0,1,3,6}); every initial length, all characters symbolic (including embedded nulls and negative chars), one edit from every such state at the larger capacities and every pair of edits at CAP 2 (thorough 3); argument strings and ranges up to 3 characters (never exceeding the capacity), pointer/forward/single-pass/initializer-list/string_view/C-string sources; appending, assigning and inserting any stretch of the string's own characters, forwards and backwards
// OUTSIDE: longer strings; stream extraction (P31)
#include "types.h"
#include "fixed_containers/fixed_string.hpp"
using namespace fixed_containers;
#ifdef VF_DEEP
constexpr size_t BIG = 6, MID = 3;
#else
constexpr size_t BIG = 4, MID = 2;
#endif
constexpr size_t MAXK = 3;
static char ch(const char* n = "c") { return vf::sym<char>(n); }

template <class C>
void agree(C& c, const Seq& m)
{
    const C& k = c;
    const size_t CAP = C::static_max_size();
    vf::check(k.size() == m.n && k.length() == m.n, "size");
    vf::check(k.empty() == (m.n == 0), "empty");
    vf::check(is_full(k) == (m.n == CAP), "is_full");
    vf::check(k.max_size() == CAP && k.capacity() == CAP, "capacity never changes");
    vf::check(k.c_str() == k.data(), "c_str is data");
    vf::check(k.c_str()[m.n] == '\0', "null terminated");
    vf::check(c.data() == k.data(), "data");
    std::string_view sv = k;
    vf::check(sv.size() == m.n && sv.data() == k.data(), "string_view");
    vf::check(static_cast<size_t>(k.end() - k.begin()) == m.n, "end - begin");
    for (size_t i = 0; i < m.n; i++)
    {
        char e = static_cast<char>(m.a[i]);
        vf::check(k.data()[i] == e, "character");
        vf::check(k[i] == e && c[i] == e && k.at(i) == e && c.at(i) == e, "character by index");
        vf::check(*(k.begin() + static_cast<std::ptrdiff_t>(i)) == e, "character by iterator");
        vf::check(*(k.rbegin() + static_cast<std::ptrdiff_t>(m.n - 1 - i)) == e, "character by reverse iterator");
        vf::obs(static_cast<u8>(k.data()[i]));
    }
    if (m.n)
    {
        vf::check(&c.front() == k.data() && &k.front() == k.data(), "front");
        vf::check(&c.back() == k.data() + m.n - 1 && &k.back() == k.data() + m.n - 1, "back");
    }
}
enum Op
{
    PUSH_BACK, POP_BACK, INSERT_CH, INSERT_PTR, INSERT_FWD, INSERT_IN, INSERT_IL, INSERT_SV, ERASE, ERASE_RANGE, CLEAR, RESIZE, RESIZE_CH,
    ASSIGN_N, ASSIGN_PTR, ASSIGN_IN, ASSIGN_IL, ASSIGN_SV, APPEND_PTR, APPEND_FWD, APPEND_IN, APPEND_IL, APPEND_SV, PLUS_CH, PLUS_CSTR,
    PLUS_IL, PLUS_SV, WRITE, SELF_APPEND, SELF_ASSIGN, SELF_INSERT, OP_ASSIGN, NOPS
};
template <class C>
void apply(C& c, Seq& m, size_t op)
{
    constexpr size_t CAP = C::static_max_size();
    using D = std::ptrdiff_t;
    auto src_len = [&](size_t room) { return vf::pick(0, room < MAXK ? room : MAXK, "k"); };
    char s[MAXK + 1] = {};
    auto fill = [&](size_t k) { for (size_t i = 0; i < k; i++) s[i] = ch(); };
    auto il = [&](size_t k, auto&& f)
    {
        if (k == 0) f(std::initializer_list<char>{});
        else if (k == 1) f({s[0]});
        else if (k == 2) f({s[0], s[1]});
        else f({s[0], s[1], s[2]});
    };
    const char* cs = s;
    switch (op)
    {
    case PUSH_BACK: if (m.n == CAP) vf_end(); { char x = ch(); c.push_back(x); m.push_back(x); vf_cover("push_back"); } break;
    case PLUS_CH: if (m.n == CAP) vf_end(); { char x = ch(); C& r = (c += x); vf::check(&r == &c, "returns *this"); m.push_back(x); vf_cover("+= char"); } break;
    case POP_BACK: if (!m.n) vf_end(); c.pop_back(); m.n--; vf_cover("pop_back"); break;
    case INSERT_CH:
        if (m.n == CAP) vf_end();
        {
            size_t p = vf::pick(0, m.n, "p");
            char x = ch();
            auto it = c.insert(c.cbegin() + static_cast<D>(p), x);
            m.insert(p, x);
            vf::check(static_cast<size_t>(it - c.begin()) == p, "insert position");
            vf_cover("insert char");
        }
        break;
    case INSERT_PTR: case INSERT_FWD: case INSERT_IN: case INSERT_IL: case INSERT_SV:
    {
        size_t p = vf::pick(0, m.n, "p"), k = src_len(CAP - m.n);
        fill(k);
        auto pos = c.cbegin() + static_cast<D>(p);
        typename C::iterator it;
        if (op == INSERT_PTR) it = c.insert(pos, cs, cs + k);
        else if (op == INSERT_FWD) it = c.insert(pos, FwdIt<char>{cs}, FwdIt<char>{cs + k});
        else if (op == INSERT_IN) { Stream<char> st{cs, k}; it = c.insert(pos, InIt<char>{&st}, InIt<char>{}); }
        else if (op == INSERT_IL) il(k, [&](std::initializer_list<char> l) { it = c.insert(pos, l); });
        else it = c.insert(pos, std::string_view(cs, k));
        for (size_t i = 0; i < k; i++) m.insert(p + i, s[i]);
        vf::check(static_cast<size_t>(it - c.begin()) == p, "insert position");
        vf_cover("insert range");
        break;
    }
    case ERASE:
        if (!m.n) vf_end();
        {
            size_t p = vf::pick(0, m.n - 1, "p");
            auto it = c.erase(c.cbegin() + static_cast<D>(p));
            m.erase(p);
            vf::check(static_cast<size_t>(it - c.begin()) == p, "erase position");
            vf_cover("erase");
        }
        break;
    case ERASE_RANGE:
    {
        size_t p = vf::pick(0, m.n, "p"), q = vf::pick(p, m.n, "q");
        auto it = c.erase(c.cbegin() + static_cast<D>(p), c.cbegin() + static_cast<D>(q));
        m.erase(p, q - p);
        vf::check(static_cast<size_t>(it - c.begin()) == p, "erase position");
        vf_cover("erase range");
        break;
    }
    case CLEAR: c.clear(); m.clear(); vf_cover("clear"); break;
    case RESIZE: { size_t k = vf::pick(0, CAP, "k"); c.resize(k); m.resize(k, 0); vf_cover("resize"); break; }
    case RESIZE_CH: { size_t k = vf::pick(0, CAP, "k"); char x = ch(); c.resize(k, x); m.resize(k, x); vf_cover("resize char"); break; }
    case ASSIGN_N:
    {
        size_t k = vf::pick(0, CAP, "k");
        char x = ch();
        C& r = c.assign(k, x);
        vf::check(&r == &c, "returns *this");
        m.clear();
        m.resize(k, x);
        vf_cover("assign n");
        break;
    }
    case ASSIGN_PTR: case ASSIGN_IN: case ASSIGN_IL: case ASSIGN_SV: case OP_ASSIGN:
    {
        size_t k = src_len(CAP);
        fill(k);
        if (op == ASSIGN_PTR) c.assign(cs, cs + k);
        else if (op == ASSIGN_IN) { Stream<char> st{cs, k}; c.assign(InIt<char>{&st}, InIt<char>{}); }
        else if (op == ASSIGN_IL) il(k, [&](std::initializer_list<char> l) { c.assign(l); });
        else if (op == ASSIGN_SV) { C& r = c.assign(std::string_view(cs, k)); vf::check(&r == &c, "returns *this"); }
        else c = std::string_view(cs, k);
        m.clear();
        for (size_t i = 0; i < k; i++) m.push_back(s[i]);
        vf_cover("assign range");
        break;
    }
    case APPEND_PTR: case APPEND_FWD: case APPEND_IN: case APPEND_IL: case APPEND_SV: case PLUS_IL: case PLUS_SV: case PLUS_CSTR:
    {
        size_t k = src_len(CAP - m.n);
        fill(k);
        if (op == PLUS_CSTR) for (size_t i = 0; i < k; i++) vf_assume(s[i] != 0);
        C* r = &c;
        if (op == APPEND_PTR) r = &c.append(cs, cs + k);
        else if (op == APPEND_FWD) r = &c.append(FwdIt<char>{cs}, FwdIt<char>{cs + k});
        else if (op == APPEND_IN) { Stream<char> st{cs, k}; r = &c.append(InIt<char>{&st}, InIt<char>{}); }
        else if (op == APPEND_IL) il(k, [&](std::initializer_list<char> l) { r = &c.append(l); });
        else if (op == APPEND_SV) r = &c.append(std::string_view(cs, k));
        else if (op == PLUS_IL) il(k, [&](std::initializer_list<char> l) { r = &(c += l); });
        else if (op == PLUS_SV) r = &(c += std::string_view(cs, k));
        else r = &(c += cs);
        vf::check(r == &c, "returns *this");
        for (size_t i = 0; i < k; i++) m.push_back(s[i]);
        vf_cover("append");
        break;
    }
    case WRITE:
        if (!m.n) vf_end();
        {
            size_t p = vf::pick(0, m.n - 1, "p");
            char x = ch();
            switch (vf::pick(0, 2)) { case 0: c[p] = x; break; case 1: c.at(p) = x; break; case 2: *(c.begin() + static_cast<D>(p)) = x; break; }
            m.a[p] = x;
            vf_cover("write");
        }
        break;
    case SELF_APPEND: case SELF_ASSIGN: case SELF_INSERT:
    {
        // the characters to use are the string's own ones [a, b)
        size_t a = vf::pick(0, m.n, "a"), b = vf::pick(a, m.n, "b"), k = b - a;
        if (op != SELF_ASSIGN && m.n + k > CAP) vf_end();
        size_t how = vf::pick(0, 2, "how");
        const C& q = c;
        auto fb = q.begin() + static_cast<D>(a), fe = q.begin() + static_cast<D>(b);
        auto rb = q.rbegin() + static_cast<D>(m.n - b), re = q.rbegin() + static_cast<D>(m.n - a);
        char t[CAP + 1] = {};
        for (size_t i = 0; i < k; i++) t[i] = m.a[how == 2 ? b - 1 - i : a + i];
        if (op == SELF_APPEND)
        {
            if (how == 1) c.append(fb, fe);
            else if (how == 2) c.append(rb, re);
            else if (k == m.n) c.append(c);
            else c += std::string_view(c.data() + a, k);
            for (size_t i = 0; i < k; i++) m.push_back(t[i]);
            vf_cover("self append");
        }
        else if (op == SELF_ASSIGN)
        {
            if (how == 1) c.assign(fb, fe);
            else if (how == 2) c.assign(rb, re);
            else c.assign(std::string_view(c.data() + a, k));
            m.clear();
            for (size_t i = 0; i < k; i++) m.push_back(t[i]);
            vf_cover("self assign");
        }
        else
        {
            size_t p = vf::pick(0, m.n, "p");
            auto pos = c.cbegin() + static_cast<D>(p);
            typename C::iterator it;
            if (how == 1) it = c.insert(pos, fb, fe);
            else if (how == 2) it = c.insert(pos, rb, re);
            else it = c.insert(pos, std::string_view(c.data() + a, k));
            for (size_t i = 0; i < k; i++) m.insert(p + i, t[i]);
            vf::check(static_cast<size_t>(it - c.begin()) == p, "insert position");
            vf_cover("self insert");
        }
        break;
    }
    }
}
template <class C>
void run(size_t lo, size_t hi, size_t ops)
{
    constexpr size_t CAP = C::static_max_size();
    Seq m;
    size_t n = vf::pick(0, CAP, "n");
    char s[CAP + 1] = {};
    for (size_t i = 0; i < n; i++) s[i] = ch();
    C c{std::string_view(s, n)};
    for (size_t i = 0; i < n; i++) m.push_back(s[i]);
    agree(c, m);
    for (size_t i = 0; i < ops; i++)
    {
        apply(c, m, vf::pick(lo, hi, "op"));
        agree(c, m);
    }
}
template <class C>
void ctors()
{
    constexpr size_t CAP = C::static_max_size();
    size_t k = vf::pick(0, CAP < MAXK ? CAP : MAXK);
    char s[MAXK + 1] = {};
    for (size_t i = 0; i < k; i++) s[i] = ch();
    Seq m;
    for (size_t i = 0; i < k; i++) m.push_back(s[i]);
    switch (vf::pick(0, 4))
    {
    case 0: { C c{}; m.clear(); agree(c, m); break; }
    case 1: { size_t n = vf::pick(0, CAP); char x = ch(); C c(n, x); m.clear(); m.resize(n, x); agree(c, m); break; }
    case 2: { for (size_t i = 0; i < k; i++) vf_assume(s[i] != 0); C c(static_cast<const char*>(s)); agree(c, m); break; }
    case 3:
        if (k == 2) { C c{s[0], s[1]}; agree(c, m); }
        break;
    case 4: { C c(std::string_view(s, k)); agree(c, m); break; }
    }
    vf_cover("ctors");
}
VF_ENTRY(big_a) { run<FixedString<BIG>>(PUSH_BACK, INSERT_FWD, 1); }
VF_ENTRY(big_b) { run<FixedString<BIG>>(INSERT_IN, INSERT_SV, 1); }
VF_ENTRY(big_c) { run<FixedString<BIG>>(ERASE, ASSIGN_N, 1); }
VF_ENTRY(big_d) { run<FixedString<BIG>>(ASSIGN_PTR, ASSIGN_SV, 1); }
VF_ENTRY(big_e) { run<FixedString<BIG>>(APPEND_PTR, APPEND_SV, 1); }
VF_ENTRY(big_f) { run<FixedString<BIG>>(PLUS_CH, OP_ASSIGN, 1); }
VF_ENTRY(cap0) { run<FixedString<0>>(0, NOPS - 1, 1); }
VF_ENTRY(cap1) { run<FixedString<1>>(0, NOPS - 1, 2); }
VF_ENTRY(mid_a__w3) { run<FixedString<MID>>(0, RESIZE_CH, 2); }
VF_ENTRY(mid_b__w3) { run<FixedString<MID>>(CLEAR, NOPS - 1, 2); }
VF_ENTRY(ctors_big) { ctors<FixedString<BIG>>(); }
VF_ENTRY(ctors_2) { ctors<FixedString<2>>(); }
VF_ENTRY(make)
{
    auto f = make_fixed_string("ab");
    vf::check(f.max_size() == 2 && f.size() == 2 && f[0] == 'a' && f[1] == 'b' && f.c_str()[2] == 0, "make_fixed_string");
    auto e = make_fixed_string("");
    vf::check(e.size() == 0 && e.max_size() == 0 && e.c_str()[0] == 0, "make_fixed_string");
}
// every state is followed by a full-capacity fill, which must not disturb the terminator
VF_ENTRY(fill)
{
    FixedString<3> c{};
    Seq m;
    for (int i = 0; i < 3; i++) { char x = ch(); c.push_back(x); m.push_back(x); agree(c, m); }
    size_t k = vf::pick(0, 3);
    for (size_t i = 0; i < k; i++) { c.pop_back(); m.n--; agree(c, m); }
    c.resize(3, 'z');
    m.resize(3, 'z');
    agree(c, m);
    c.clear();
    m.clear();
    agree(c, m);
}
