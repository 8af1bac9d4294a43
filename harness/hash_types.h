// hash functions for the unordered containers: any bits of the key may or may not enter the hash
#pragma once
#include "types.h"
// low 8 bits of the hash are the fingerprint, the rest select the bucket; key bits 0..2 do not enter, so distinct keys may collide fully
struct H16
{
    u64 operator()(u16 k) const { return k >> 3; }
    u64 operator()(const NT& k) const { return k.v >> 3; }
    u64 operator()(const Tr& k) const { return k.get() >> 3; }
    u64 operator()(const TrTA& k) const { return k.get() >> 3; }
};
// all keys collide
struct H0
{
    u64 operator()(u16) const { return 0; }
    u64 operator()(const NT&) const { return ~u64(0); }
};
// only the bucket varies / only the fingerprint varies
struct HB { u64 operator()(u16 k) const { return u64(k) << 8; } };
struct HF { u64 operator()(u16 k) const { return k & 0xff; } };
// full-width
struct HW { u64 operator()(u16 k) const { return u64(k) << 48 | u64(k & 0xf) << 8 | 0xff; } };
// stateful
struct HS
{
    u64 mask = 0;
    u64 operator()(u16 k) const { return (k & mask) << 5; }
};
struct EqS { bool strict = false; bool operator()(u16 a, u16 b) const { return a == b; } };
