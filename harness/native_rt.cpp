// Native runtime for the harness API: replays concrete inputs on the real code.
//   prog ENTRY hex hex ...          run one
//   prog --batch < lines            each line: ENTRY hex ...; forks one child per line
// Exit code / status: 0 end reached, 42 check failed, 43 unexpected abort, 44 crash or sanitizer report,
// 45 time-out, 77 assumption not met.
#include "vf.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <vector>

static std::vector<unsigned long long> g_in;
static size_t g_pos = 0;
static int g_expect_abort = 0, g_allow_alloc = 0, g_active = 0;
static std::vector<unsigned long long> g_obs;

static void out(const char* what, const char* id)
{
    g_active = 0;
    printf("%s %s |", what, id ? id : "");
    for (auto v : g_obs) printf(" %llx", v);
    printf("\n");
    fflush(stdout);
}
extern "C"
{
    std::uint64_t vf_sym(std::uint32_t bits, const char*)
    {
        unsigned long long v = g_pos < g_in.size() ? g_in[g_pos] : 0;
        g_pos++;
        if (bits < 64) v &= (1ull << bits) - 1;
        return v;
    }
    void vf_assume(bool b)
    {
        if (!b) { out("ASSUME", ""); _exit(77); }
    }
    void vf_check(bool b, const char* id)
    {
        if (!b) { out("CHECKFAIL", id); _exit(42); }
    }
    void vf_cover(const char*) {}
    void vf_observe(std::uint64_t v)
    {
        int a = g_active;
        g_active = 0;
        g_obs.push_back(v);
        g_active = a;
    }
    void vf_end() { out("END", "end"); _exit(0); }
    void vf_expect_abort(int x) { g_expect_abort = x; }
    void vf_allow_alloc(int x) { g_allow_alloc = x; }
    std::uint64_t vf_concretize(std::uint64_t x) { return x; }
    int vf_is_native() { return 1; }
}
static void on_abort(int)
{
    if (g_expect_abort) { out("END", "abort"); _exit(0); }
    out("ABORT", "");
    _exit(43);
}
#ifndef VF_NO_NEW
void* operator new(std::size_t n)
{
    if (g_active && !g_allow_alloc) { out("CHECKFAIL", "dynamic-allocation"); _exit(42); }
    return malloc(n ? n : 1);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
#endif
static int run(const char* entry)
{
    auto f = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, entry));
    if (!f) { fprintf(stderr, "no entry %s\n", entry); return 3; }
    signal(SIGABRT, on_abort);
    g_active = 1;
    f();
    g_active = 0;
    out("END", "end");
    return 0;
}
// no library streams or strings here: their code is not instrumented and would upset the memory sanitizer
static const char* parse(char* line)
{
    char* at = nullptr;
    const char* e = strtok_r(line, " \n", &at);
    g_in.clear();
    while (const char* x = strtok_r(nullptr, " \n", &at)) g_in.push_back(strtoull(x, nullptr, 16));
    return e ? e : "";
}
int main(int argc, char** argv)
{
    if (argc > 1 && !strcmp(argv[1], "--batch"))
    {
        char* line = nullptr;
        size_t room = 0;
        ssize_t n;
        while ((n = getline(&line, &room, stdin)) >= 0)
        {
            if (n <= 1) continue;
            fflush(stdout);
            pid_t p = fork();
            if (p == 0)
            {
                alarm(10);
                _exit(run(parse(line)));
            }
            int st = 0;
            waitpid(p, &st, 0);
            int code = WIFEXITED(st) ? WEXITSTATUS(st) : (WTERMSIG(st) == SIGALRM ? 45 : 44);
            printf("RESULT %d\n", code);
        }
        free(line);
        return 0;
    }
    if (argc < 2) return 3;
    for (int i = 2; i < argc; i++) g_in.push_back(strtoull(argv[i], nullptr, 16));
    return run(argv[1]);
}
