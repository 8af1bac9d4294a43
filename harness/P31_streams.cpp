// BOUNDS: FixedString<CAP>, CAP in {0,1,3,4,8}: input streams of every length up to 11 (thorough 15) with all characters symbolic (any byte, hence every placement of the six whitespace characters), empty and already holding up to 2 characters, three successive extractions; insertion of every content of length 0..CAP into a stream
// OUTSIDE: field width and skipws flags; locales other than "C"; streams that fail for reasons of their own; longer inputs
// ASSUME: the character classification and locale set-up inside the compiled libstdc++ (replaced by the "C" whitespace table; the stream classes themselves are encoded from libstdc++'s headers)
#include "stream_env.h"
#include "fixed_containers/fixed_string.hpp"
using namespace fixed_containers;
#ifdef VF_DEEP
constexpr size_t MAXN = 15;
#else
constexpr size_t MAXN = 11;
#endif
inline bool space(char c) { return static_cast<bool>(static_cast<int>(c == ' ') | static_cast<int>(static_cast<unsigned char>(c - '\t') < 5)); }
struct Rep
{
    static inline bool expected = false;
    static inline size_t reported = 0;
};
template <size_t CAP>
struct Pol
{
    using L = std_transition::source_location;
    [[noreturn]] static void fail(const char* id) { vf::check(false, id); vf_end(); }
    static void out_of_range(const size_t, const size_t, const L&) { fail("out_of_range reported"); }
    static void length_error(const size_t n, const L&)
    {
        vf::check(Rep::expected, "length_error reported although the token fits");
        vf::check(n == CAP + 1, "reported size");
        vf_cover("token too long");
        vf_end();
    }
    static void empty_container_access(const L&) { fail("empty_container_access reported"); }
    static void invalid_argument(const char*, const L&) { fail("invalid_argument reported"); }
};
template <size_t CAP>
void extract()
{
    env::init();
    const size_t n = vf::pick(0, MAXN, "n");
    char a[MAXN + 1];
    for (size_t i = 0; i < n; i++) a[i] = vf::sym<char>("c");
    InBuf b(a, n);
    std::istream in(&b);
    FixedString<CAP, Pol<CAP>> s;
    for (size_t i = vf::pick(0, CAP < 2 ? CAP : 2, "old"); i-- > 0;) s.push_back('o');
    size_t pos = 0;
    for (int round = 0; round < 3; round++)
    {
        // what std::string would extract
        while (pos < n && space(a[pos])) pos++;
        const size_t start = pos;
        while (pos < n && !space(a[pos])) pos++;
        const size_t len = pos - start;
        Rep::expected = len > CAP;
        std::istream& r = in >> s;
        vf::check(&r == &in, "returns the stream");
        vf::check(len <= CAP, "a token that does not fit is reported");
        vf::check(s.size() == len, "size");
        for (size_t i = 0; i < len && i < s.size(); i++) vf::check(s[i] == a[start + i], "characters");
        vf::check(s.c_str()[s.size()] == 0, "terminator");
        vf::check(in.fail() == (len == 0), "the stream fails exactly when there is no token");
        vf::check(in.eof() == (pos == n), "end of stream");
        vf::check(!in.bad(), "bad");
        vf::check(b.rest() == n - pos, "the rest, from the delimiter on, is left in the stream");
        vf_cover("extracted");
        if (len == 0) vf_end();
        if (round == 1) vf_cover("two tokens");
        if (round == 2) vf_cover("three tokens");
    }
}
VF_ENTRY(in_0) { extract<0>(); }
VF_ENTRY(in_1__w2) { extract<1>(); }
VF_ENTRY(in_3__w3) { extract<3>(); }
VF_ENTRY(in_4__w3) { extract<4>(); }
VF_ENTRY(in_8__w4) { extract<8>(); }
template <size_t CAP>
void insert()
{
    env::init();
    char o[CAP + 8];
    OutBuf b(o, CAP + 8);
    std::ostream out(&b);
    FixedString<CAP> s;
    char a[CAP + 1];
    const size_t n = vf::pick(0, CAP, "n");
    for (size_t i = 0; i < n; i++) { a[i] = vf::sym<char>("c"); s.push_back(a[i]); }
    out << s << '|' << s;
    vf::check(b.size() == 2 * n + 1 && out.good(), "written size");
    for (size_t i = 0; i < n; i++) vf::check(o[i] == a[i] && o[n + 1 + i] == a[i], "written characters");
    vf::check(o[n] == '|', "written characters");
    vf::check(s.size() == n, "unchanged");
    for (size_t i = 0; i < n; i++) vf::check(s[i] == a[i], "unchanged");
    vf_cover("inserted");
}
VF_ENTRY(out_0) { insert<0>(); }
VF_ENTRY(out_4) { insert<4>(); }
// written and read back
VF_ENTRY(round_trip)
{
    env::init();
    char o[16];
    OutBuf b(o, 16);
    std::ostream out(&b);
    FixedString<4> s, t;
    const size_t n = vf::pick(1, 4, "n");
    for (size_t i = 0; i < n; i++)
    {
        const char c = vf::sym<char>("c");
        vf_assume(!space(c));
        s.push_back(c);
    }
    const size_t k = vf::pick(0, 2, "separators");
    out << s;
    for (size_t i = 0; i < k; i++) out.put(i ? '\n' : ' ');
    out << s;
    InBuf ib(o, b.size());
    std::istream in(&ib);
    FixedString<8> u;
    if (k == 0)
    {
        in >> u;
        vf::check(u.size() == 2 * n, "round trip");
    }
    else
    {
        in >> t;
        vf::check(t == s && in.good(), "round trip");
        in >> u;
        vf::check(u == s && in.eof() && !in.fail(), "round trip");
    }
    vf_cover("round trip");
}
