// Harness API.  Under the symbolic executor (engine/vfx.cpp) these are intrinsics; natively they are
// provided by native_rt.cpp, which feeds back the solver's concrete inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <type_traits>
#include <utility>

extern "C"
{
    std::uint64_t vf_sym(std::uint32_t bits, const char* name);
    void vf_assume(bool);
    void vf_check(bool, const char* id);
    void vf_cover(const char* id);
    void vf_observe(std::uint64_t);
    [[noreturn]] void vf_end();
    void vf_expect_abort(int);
    void vf_allow_alloc(int);
    std::uint64_t vf_concretize(std::uint64_t);
    int vf_is_native();
}

#ifdef VF_CONST_EVAL  // a second translation unit over the same harness: entry names must differ
#define VF_ENTRY(name) extern "C" __attribute__((noinline, used)) void vf_entry_ce_##name()
#define VF_THOROUGH_ENTRY(name) extern "C" __attribute__((noinline, used)) void vf_entry_t_ce_##name()
#else
#define VF_ENTRY(name) extern "C" __attribute__((noinline, used)) void vf_entry_##name()
#define VF_THOROUGH_ENTRY(name) extern "C" __attribute__((noinline, used)) void vf_entry_t_##name()
#endif

namespace vf
{
// a fully symbolic value
template <class T>
inline T sym(const char* name = "v")
{
    if constexpr (std::is_same_v<T, bool>)
        return vf_sym(1, name) != 0;
    else
        return static_cast<T>(vf_sym(sizeof(T) * 8, name));
}
// a symbolic number in [lo, hi], kept symbolic
inline std::size_t range(std::size_t lo, std::size_t hi, const char* name = "n")
{
    std::uint64_t x = vf_sym(8, name);
    vf_assume(x <= hi - lo);
    return lo + x;
}
// a symbolic number in [lo, hi] on which the executor forks (one path per feasible value)
inline std::size_t pick(std::size_t lo, std::size_t hi, const char* name = "n")
{
    if (lo == hi) return lo;
#ifdef VF_BIG  // large capacities: only the values at which narrow integers wrap
    if (hi - lo > 12)
    {
        const std::size_t cand[] = {lo, lo + 1, 127, 128, 255, 256, 257, hi - 1, hi};
        std::size_t set[9], k = 0;
        for (std::size_t c : cand)
            if (c >= lo && c <= hi && (k == 0 || c > set[k - 1])) set[k++] = c;
        return set[vf_concretize(range(0, k - 1, name))];
    }
#endif
    return vf_concretize(range(lo, hi, name));
}
inline bool coin(const char* name = "b") { return pick(0, 1, name) != 0; }
inline void check(bool b, const char* id) { vf_check(b, id); }
inline void obs(std::uint64_t v) { vf_observe(v); }
}  // namespace vf
