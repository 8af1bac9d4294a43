// A container in raw storage whose lifetime (and bytes) the harness controls.
#pragma once
#include "types.h"
template <class C>
struct Box
{
    alignas(C) unsigned char raw[sizeof(C)];
    C* c = nullptr;
    template <class... A>
    C& make(A&&... a) { c = new (raw) C(static_cast<A&&>(a)...); return *c; }
    C& get() { return *c; }
    void fill(unsigned char x) { for (size_t i = 0; i < sizeof raw; i++) raw[i] = x; }
    // destroys the object and overwrites its memory
    void kill() { c->~C(); c = nullptr; fill(0xA5); }
};
