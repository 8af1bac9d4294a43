// Streams.  Symbolically the stream classes are libstdc++'s own templates (istream, ostream, streambuf, ws, ...),
// instantiated from the headers; only the locale behind them, which lives in the compiled library, is replaced by
// the classic "C" locale's whitespace table.  Natively everything is the real library.  Include first.
#pragma once
#ifndef VF_NATIVE
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#define VF_STREAM_CTYPE
#endif
#include "types.h"
#include <istream>
#include <locale>
#include <ostream>
#include <streambuf>
#ifndef VF_NATIVE
namespace env
{
alignas(16) inline unsigned char ct[sizeof(std::ctype<char>)];
inline const void* facets[4];
struct Impl  // layout of std::locale::_Impl
{
    int refs;
    const void** facets;
    std::size_t n;
    const void** caches;
    char** names;
};
inline Impl impl;
inline void init()
{
    for (auto& f : facets) f = ct;
    impl = {1, facets, 2, nullptr, nullptr};
}
}
namespace std
{
locale::locale() noexcept { *reinterpret_cast<void**>(this) = &env::impl; }
locale::locale(const locale&) noexcept { *reinterpret_cast<void**>(this) = &env::impl; }
locale::~locale() noexcept {}
const locale& locale::operator=(const locale&) noexcept { return *this; }
size_t locale::id::_M_id() const throw() { return 1; }
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw()
{
    _M_precision = 6;
    _M_width = 0;
    _M_flags = skipws | dec;
}
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
void __throw_bad_cast() { vf_check(false, "bad_cast"); vf_end(); }
void __throw_ios_failure(const char*) { vf_check(false, "ios_failure"); vf_end(); }
}
extern "C" int isspace(int c) { return static_cast<int>(c == ' ') | static_cast<int>(static_cast<unsigned>(c - '\t') < 5U); }
std::locale::id std::ctype<char>::id;
#else
namespace env { inline void init() {} }
#endif
struct InBuf : std::streambuf
{
    InBuf(char* a, size_t n) { setg(a, a, a + n); }
    size_t rest() const { return static_cast<size_t>(egptr() - gptr()); }
};
struct OutBuf : std::streambuf
{
    OutBuf(char* a, size_t n) { setp(a, a + n); }
    size_t size() const { return static_cast<size_t>(pptr() - pbase()); }
};
