// Element types, reference models and iterators used by the harnesses.
#pragma once
#include "vf.h"

#include <compare>
#include <initializer_list>
#include <iterator>
#include <memory>

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;
using std::size_t;

// ---------------------------------------------------------------- element types
// non-trivial copy/move/destruction; a moved-from or destroyed object no longer carries its value
struct NT
{
    u16 v;
    u16 at;  // where it was constructed: a bytewise copy is not an element
    static u16 place(const void* p) { const auto a = reinterpret_cast<std::uintptr_t>(p); return static_cast<u16>(a ^ (a >> 16) ^ (a >> 32)); }
    NT() : v(0), at(place(this)) {}
    NT(u16 x) : v(x), at(place(this)) {}
    NT(const NT& o) : v(o.v), at(place(this)) {}
    NT(NT&& o) noexcept : v(o.v), at(place(this)) { o.v = 0xDEAD; }
    NT& operator=(const NT& o) { v = o.v; return *this; }
    NT& operator=(NT&& o) noexcept { if (this != &o) { v = o.v; o.v = 0xDEAD; } return *this; }
    ~NT() { v = 0xDDDD; }
    friend bool operator==(const NT& a, const NT& b) { return a.v == b.v; }
    friend auto operator<=>(const NT& a, const NT& b) { return a.v <=> b.v; }
};

// registry of live objects
#ifdef VF_BIG  // an index on top of the list, for many objects
struct Live
{
    static constexpr size_t SLOTS = 8192;
    static inline const void* a[2048];
    static inline u16 t[SLOTS];  // 0 never used, 0xffff free again, otherwise position in a plus one
    static inline size_t n;
    static size_t slot(const void* p) { return (reinterpret_cast<std::uintptr_t>(p) / 2 * 29) % SLOTS; }
    static size_t next(size_t s) { return (s + 1) % SLOTS; }
    static size_t find(const void* p)
    {
        size_t s = slot(p);
        for (; t[s]; s = next(s))
            if (t[s] != 0xffff && a[t[s] - 1] == p) return s;
        return SLOTS;
    }
    static void add(const void* p)
    {
        if (find(p) != SLOTS) vf_check(false, "lifetime: constructed over a live element");
        vf_check(n < 2048, "lifetime: too many live elements");
        size_t s = slot(p);
        while (t[s] && t[s] != 0xffff) s = next(s);
        a[n++] = p;
        t[s] = static_cast<u16>(n);
    }
    static bool has(const void* p) { return find(p) != SLOTS; }
    static void del(const void* p)
    {
        size_t s = find(p);
        if (s == SLOTS) { vf_check(false, "lifetime: destroyed an element that is not alive"); return; }
        u16 i = static_cast<u16>(t[s] - 1);
        n--;
        if (i != n)
        {
            t[find(a[n])] = static_cast<u16>(i + 1);
            a[i] = a[n];
        }
        t[s] = t[next(s)] ? 0xffff : 0;
    }
#else
struct Live
{
    static inline const void* a[96];
    static inline size_t n;
    static void add(const void* p)
    {
        for (size_t i = 0; i < n; i++)
            if (a[i] == p) vf_check(false, "lifetime: constructed over a live element");
        vf_check(n < 96, "lifetime: too many live elements");
        a[n++] = p;
    }
    static bool has(const void* p)
    {
        for (size_t i = 0; i < n; i++)
            if (a[i] == p) return true;
        return false;
    }
    static void del(const void* p)
    {
        for (size_t i = 0; i < n; i++)
            if (a[i] == p) { a[i] = a[--n]; return; }
        vf_check(false, "lifetime: destroyed an element that is not alive");
    }
#endif
    static void use(const void* p, const char* what) { if (!has(p)) vf_check(false, what); }
    // number of live objects inside [lo, lo+bytes)
    static size_t within(const void* lo, size_t bytes)
    {
        size_t c = 0;
        for (size_t i = 0; i < n; i++)
        {
            auto d = static_cast<size_t>(reinterpret_cast<std::uintptr_t>(a[i]) - reinterpret_cast<std::uintptr_t>(lo));
            if (d < bytes) c++;
        }
        return c;
    }
};

// tracked element; the library has to find its address without the overloaded operator
struct Decoy { alignas(8) static inline unsigned char b[64]; };
struct Tr
{
    u16 v;
    Tr() : v(0) { Live::add(this); }
    Tr(u16 x) : v(x) { Live::add(this); }
    Tr(const Tr& o) { Live::use(std::addressof(o), "lifetime: copied from an element that is not alive"); v = o.v; Live::add(this); }
    Tr(Tr&& o) noexcept { Live::use(std::addressof(o), "lifetime: moved from an element that is not alive"); v = o.v; o.v = 0xDEAD; Live::add(this); }
    Tr& operator=(const Tr& o)
    {
        Live::use(this, "lifetime: assigned to an element that is not alive");
        Live::use(std::addressof(o), "lifetime: assigned from an element that is not alive");
        v = o.v;
        return *this;
    }
    Tr& operator=(Tr&& o) noexcept
    {
        Live::use(this, "lifetime: assigned to an element that is not alive");
        Live::use(std::addressof(o), "lifetime: assigned from an element that is not alive");
        if (this != std::addressof(o)) { v = o.v; o.v = 0xDEAD; }
        return *this;
    }
    Tr* operator&() const { return reinterpret_cast<Tr*>(Decoy::b); }
    ~Tr() { Live::del(this); v = 0xDDDD; }
    u16 get() const { Live::use(this, "lifetime: read an element that is not alive"); return v; }
    friend bool operator==(const Tr& a, const Tr& b) { return a.get() == b.get(); }
    friend auto operator<=>(const Tr& a, const Tr& b) { return a.get() <=> b.get(); }
};

// tracked, movable but not copyable
struct TrMove
{
    u16 v;
    TrMove() : v(0) { Live::add(this); }
    TrMove(u16 x) : v(x) { Live::add(this); }
    TrMove(const TrMove&) = delete;
    TrMove& operator=(const TrMove&) = delete;
    TrMove(TrMove&& o) noexcept { Live::use(std::addressof(o), "lifetime: moved from an element that is not alive"); v = o.v; o.v = 0xDEAD; Live::add(this); }
    TrMove& operator=(TrMove&& o) noexcept
    {
        Live::use(this, "lifetime: assigned to an element that is not alive");
        Live::use(std::addressof(o), "lifetime: assigned from an element that is not alive");
        if (this != std::addressof(o)) { v = o.v; o.v = 0xDEAD; }
        return *this;
    }
    TrMove* operator&() const { return reinterpret_cast<TrMove*>(Decoy::b); }
    ~TrMove() { Live::del(this); v = 0xDDDD; }
    u16 get() const { Live::use(this, "lifetime: read an element that is not alive"); return v; }
};

// tracked, but with trivial assignment
struct TrTA
{
    u16 v;
    TrTA() : v(0) { Live::add(this); }
    TrTA(u16 x) : v(x) { Live::add(this); }
    TrTA(const TrTA& o) { Live::use(std::addressof(o), "lifetime: copied from an element that is not alive"); v = o.v; Live::add(this); }
    TrTA(TrTA&& o) noexcept { Live::use(std::addressof(o), "lifetime: moved from an element that is not alive"); v = o.v; Live::add(this); }
    TrTA& operator=(const TrTA&) = default;
    TrTA& operator=(TrTA&&) noexcept = default;
    ~TrTA() { Live::del(this); }
    u16 get() const { Live::use(this, "lifetime: read an element that is not alive"); return v; }
    friend bool operator==(const TrTA& a, const TrTA& b) { return a.get() == b.get(); }
    friend auto operator<=>(const TrTA& a, const TrTA& b) { return a.get() <=> b.get(); }
};

inline u16 val(u16 x) { return x; }
inline u16 val(const NT& x) { vf_check(x.at == NT::place(&x), "an element is where it was constructed, not a bytewise copy"); return x.v; }
inline u16 val(const Tr& x) { return x.get(); }
inline u16 val(const TrTA& x) { return x.get(); }
inline u16 val(const TrMove& x) { return x.get(); }

// ---------------------------------------------------------------- iterators over an array of T
// single pass: copies share the position, so reading a consumed position is a detectable error
template <class T>
struct Stream
{
    const T* a;
    size_t n;
    size_t pos = 0;
};
template <class T>
struct InIt
{
    using iterator_category = std::input_iterator_tag;
    using iterator_concept = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    Stream<T>* s = nullptr;
    reference operator*() const
    {
        vf_check(s->pos < s->n, "single-pass range read past its end");
        return s->a[s->pos];
    }
    InIt& operator++()
    {
        vf_check(s->pos < s->n, "single-pass range advanced past its end");
        s->pos++;
        return *this;
    }
    InIt operator++(int) { ++*this; return *this; }
    friend bool operator==(const InIt& x, const InIt& y)
    {
        bool ex = x.s == nullptr || x.s->pos == x.s->n, ey = y.s == nullptr || y.s->pos == y.s->n;
        return ex == ey;
    }
};
// forward (multi-pass), not random access
template <class T>
struct FwdIt
{
    using iterator_category = std::forward_iterator_tag;
    using iterator_concept = std::forward_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p = nullptr;
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    FwdIt& operator++() { ++p; return *this; }
    FwdIt operator++(int) { auto r = *this; ++p; return r; }
    friend bool operator==(const FwdIt&, const FwdIt&) = default;
};

// ---------------------------------------------------------------- reference model of a sequence
struct Seq
{
    #ifdef VF_BIG
    static constexpr size_t MAX = VF_BIG + 8;
#else
    static constexpr size_t MAX = 24;
#endif
    u16 a[MAX];
    size_t n = 0;
    void push_back(u16 x) { a[n++] = x; }
    void insert(size_t p, u16 x)
    {
        for (size_t i = n; i > p; i--) a[i] = a[i - 1];
        a[p] = x;
        n++;
    }
    void erase(size_t p, size_t k = 1)
    {
        for (size_t i = p; i + k < n; i++) a[i] = a[i + k];
        n -= k;
    }
    void pop_front() { erase(0); }
    void clear() { n = 0; }
    void resize(size_t k, u16 x) { while (n < k) a[n++] = x; n = k; }
    size_t remove(u16 x)
    {
        size_t j = 0, r = 0;
        for (size_t i = 0; i < n; i++)
        {
            if (a[i] == x) r++;
            else a[j++] = a[i];
        }
        n = j;
        return r;
    }
    size_t remove_odd()
    {
        size_t j = 0, r = 0;
        for (size_t i = 0; i < n; i++)
        {
            if (a[i] & 1) r++;
            else a[j++] = a[i];
        }
        n = j;
        return r;
    }
};
