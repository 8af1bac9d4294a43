// Sequence containers of tracked elements in storage whose lifetime the harness controls.
#pragma once
#include "seq_ops.h"
using namespace seq;

// a container in raw storage whose lifetime the harness controls
template <class C>
struct Box
{
    alignas(C) unsigned char raw[sizeof(C)];
    C* c;
    template <class... A>
    C& make(A&&... a) { c = new (raw) C(static_cast<A&&>(a)...); return *c; }
    C& get() { return *c; }
    size_t live() const { return Live::within(raw, sizeof raw); }
    void kill() { c->~C(); vf::check(live() == 0, "destroying the container destroys every element"); }
};
template <class B>
void owns(B& b, size_t n, size_t others, const char* id)
{
    vf::check(b.live() == n, id);
    vf::check(Live::n == n + others, "no element outside the containers stays alive");
}
template <Kind K, class C>
void one(size_t maxrot, unsigned lo, unsigned hi, size_t ops)
{
    Box<C> b;
    C& c = b.make();
    owns(b, 0, 0, "an empty container holds no element");
    Seq m;
    build<K>(c, m, C::static_max_size(), maxrot);
    owns(b, m.n, 0, "one live element per position");
    for (size_t i = 0; i < ops; i++)
    {
        apply<K>(c, m, static_cast<unsigned>(vf::pick(lo, hi, "op")));
        owns(b, m.n, 0, "removed elements are destroyed, added ones are alive");
    }
    agree<K>(c, m);
    owns(b, m.n, 0, "one live element per position");
    b.kill();
    owns(b, 0, 0, "nothing leaks");
    vf_cover("destroyed");
}
