// Stands before libstdc++'s own header of this name.  Only the symbolic encoding of the stream checks replaces the
// classification table (one fork per table entry) by the equivalent comparison; everybody else gets the original.
#ifndef VF_STREAM_CTYPE
#include_next <bits/ctype_inline.h>
#else
namespace std
{
inline bool vf_space(unsigned char c) { return static_cast<bool>(static_cast<int>(c == ' ') | static_cast<int>(static_cast<unsigned char>(c - '\t') < 5)); }
bool ctype<char>::is(mask m, char c) const { return (m & space) != 0 && vf_space(static_cast<unsigned char>(c)); }
const char* ctype<char>::is(const char*, const char* hi, mask*) const { vf_check(false, "ctype::is(range)"); return hi; }
const char* ctype<char>::scan_is(mask m, const char* lo, const char* hi) const
{
    while (lo < hi && !is(m, *lo)) ++lo;
    return lo;
}
const char* ctype<char>::scan_not(mask m, const char* lo, const char* hi) const
{
    while (lo < hi && is(m, *lo)) ++lo;
    return lo;
}
}
#endif
