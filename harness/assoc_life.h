// Maps and sets of tracked keys and values in storage whose lifetime the harness controls.
#pragma once
#include "assoc_ops.h"
#include "hash_types.h"
using namespace assoc;

template <class C>
struct Box
{
    alignas(C) unsigned char raw[sizeof(C)];
    C* c;
    template <class... A>
    C& make(A&&... a) { c = new (raw) C(static_cast<A&&>(a)...); return *c; }
    C& get() { return *c; }
    size_t live() const { return Live::within(raw, sizeof raw); }
    void kill() { c->~C(); vf::check(live() == 0, "destroying the container destroys every entry"); }
};
template <class T> constexpr bool TRACKED = std::is_same_v<T, Tr> || std::is_same_v<T, TrMove> || std::is_same_v<T, TrTA>;
// tracked objects per entry
template <class C> constexpr size_t per()
{
    size_t r = TRACKED<typename C::key_type> ? 1 : 0;
    if constexpr (IS_MAP<C>) r += TRACKED<typename C::mapped_type> ? 1 : 0;
    return r;
}
template <class C>
void owns(Box<C>& b, size_t n, size_t others, const char* id)
{
    vf::check(b.live() == n * per<C>(), id);
    vf::check(Live::n == b.live() + others * per<C>(), "no key or value outside the containers stays alive");
}
template <class Ord, class C>
void one(size_t lo, size_t hi, size_t extra, size_t oplo, size_t ophi, size_t ops = 1)
{
    Box<C> b;
    C& c = b.make();
    owns(b, 0, 0, "an empty container holds no entry");
    Model<Ord> m;
    build(c, m, lo, hi, extra);
    owns(b, m.n, 0, "one live entry per key");
    for (size_t i = 0; i < ops; i++)
    {
        apply(c, m, vf::pick(oplo, ophi, "op"));
        owns(b, m.n, 0, "removed entries are destroyed, added ones are alive, refused ones leave nothing");
    }
    agree(c, m);
    b.kill();
    owns(b, 0, 0, "nothing leaks");
    vf_cover("destroyed");
}
