// vfx: symbolic executor for LLVM IR (KLEE-style), deciding with Z3.
//
//   vfx --list MODULE.bc
//   vfx MODULE.bc --entry NAME --out RESULT.json [--time-limit S] [--max-inst N]
//       [--max-violations N] [--samples N]
//
// All data is bit-vector symbolic; memory is a set of objects with checked bounds.
#include "expr.h"

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <fstream>
#include <functional>
#include <unistd.h>
#include <map>
#include <memory>
#include <set>
#include <sys/resource.h>

using namespace llvm;
using std::string;
using std::vector;

static double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ ref-counted pointers
template <class T>
struct RP
{
    T* p = nullptr;
    RP() = default;
    RP(T* x) : p(x) { if (p) p->rc++; }
    RP(const RP& o) : p(o.p) { if (p) p->rc++; }
    RP(RP&& o) noexcept : p(o.p) { o.p = nullptr; }
    ~RP() { rel(); }
    void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
    RP& operator=(const RP& o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; }
    RP& operator=(RP&& o) noexcept { if (this != &o) { rel(); p = o.p; o.p = nullptr; } return *this; }
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
    T* own()  // copy-on-write
    {
        if (p->rc > 1) { T* n = new T(*p); n->rc = 0; *this = RP(n); }
        return p;
    }
};

struct Agg;
struct Val
{
    Expr* e = nullptr;
    u128 c = 0;
    uint16_t w = 0;
    RP<Agg> agg;
    bool conc() const { return e == nullptr; }
};
struct Agg
{
    int rc = 0;
    vector<Val> v;
};

static ExprPool* EP;
static Val cv(u128 c, unsigned w) { Val v; v.c = c & maskw(w); v.w = w; return v; }
static Val ve(Expr* e)
{
    Val v;
    v.w = e->w;
    if (e->k == K_CONST) v.c = e->v;
    else v.e = e;
    return v;
}
static Expr* ex(const Val& v) { return v.e ? v.e : EP->cst(v.c, v.w); }

// ------------------------------------------------------------------ memory
struct SymByte
{
    Expr* e;
    uint8_t off;
};
enum : uint8_t { B_CONC = 0, B_SYM = 1, B_UNINIT = 2 };
struct MemObj
{
    int rc = 0;
    uint64_t size = 0;
    bool ro = false, alive = true, isStack = false;
    vector<uint8_t> data, st;
    vector<SymByte> sym;
    const char* what = "";
};
struct Chunk
{
    int rc = 0;
    RP<MemObj> o[64];
};
static const uint64_t LOBASE = 0x10000;
static inline uint64_t baseOf(uint64_t id) { return (id << 32) + LOBASE; }

struct Memory
{
    vector<RP<Chunk>> ch;
    uint64_t next = 16;
    MemObj* get(uint64_t id) const
    {
        uint64_t k = id >> 6;
        if (k >= ch.size() || !ch[k]) return nullptr;
        return ch[k]->o[id & 63].p;
    }
    MemObj* own(uint64_t id)
    {
        Chunk* c = ch[id >> 6].own();
        return c->o[id & 63].own();
    }
    uint64_t add(MemObj* m)
    {
        uint64_t id = next++;
        uint64_t k = id >> 6;
        while (ch.size() <= k) ch.emplace_back();
        if (!ch[k]) ch[k] = RP<Chunk>(new Chunk);
        ch[k].own()->o[id & 63] = RP<MemObj>(m);
        return id;
    }
    void drop(uint64_t id)
    {
        uint64_t k = id >> 6;
        if (k < ch.size() && ch[k]) ch[k].own()->o[id & 63] = RP<MemObj>();
    }
};

// ------------------------------------------------------------------ decoded code
struct Opnd
{
    int slot = -1;  // >=0 register
    Val k;        // constant
};
struct Fn;
struct DInst
{
    unsigned op;
    int dst = -1;
    unsigned w = 0;       // result width (bits) for ints/pointers
    unsigned pred = 0;
    vector<Opnd> ops;
    Instruction* I = nullptr;
    // gep
    int64_t constOff = 0;
    vector<std::pair<int, uint64_t>> scaled;  // operand index, scale
    // branches
    int t0 = -1, t1 = -1;
    vector<std::pair<u128, int>> cases;
    // phi: predecessor block -> operand index
    vector<int> inBlocks;
    // load/store
    unsigned bytes = 0;
    Type* ty = nullptr;
    uint64_t align = 1;
    // call
    Fn* callee = nullptr;
    Function* extf = nullptr;
    unsigned iid = 0;
    vector<uint64_t> byval;
    vector<unsigned> idxs;
    bool covered = false;
};
struct DBlock
{
    vector<DInst> ins;
};
struct Fn
{
    Function* F = nullptr;
    vector<DBlock> blocks;
    int nslots = 0;
    vector<int> argSlots;
    bool decoded = false;
};

struct Frame
{
    int rc = 0;
    Fn* fn = nullptr;
    int bb = 0, ip = 0, prev = -1;
    vector<Val> r;
    vector<uint64_t> allocas;
    int retDst = -1;
};

struct State
{
    vector<RP<Frame>> fr;
    Memory mem;
    vector<Expr*> cons;
    Model model;
    vector<Expr*> inputs;  // vf_sym in order (Const allowed)
    vector<Expr*> observed;
    uint64_t insts = 0;
    uint32_t nundef = 0;
    bool expectAbort = false, allowAlloc = false;
    int forks = 0;
    uint64_t tmark = 0;
};

struct Violation
{
    string kind, id, msg, where;
    vector<std::pair<unsigned, u128>> inputs;
    bool undef = false;
};

struct PathEnd { const char* why; };

struct Engine
{
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    ExprPool pool;
    Z3_context z3 = nullptr;
    Z3_solver solver = nullptr;
    std::map<Function*, std::unique_ptr<Fn>> fns;
    std::map<const GlobalValue*, uint64_t> gaddr;
    std::map<uint64_t, Function*> faddr;
    Memory initMem;
    vector<State*> work;
    // options
    double timeLimit = 600, t0 = 0, queryTimeout = 60;
    uint64_t maxInst = 5000000;
    int maxViol = 3, samples = 20;
    bool verbose = false;
    // stats
    uint64_t nQueries = 0, nCacheHit = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nChecks = 0, nChecksSolver = 0,
             nPaths = 0, nDropped = 0, nInst = 0, nForks = 0, nExpectedAborts = 0, nMaxInst = 0;
    double solverTime = 0, maxQuery = 0;
    bool incomplete = false;
    string incompleteWhy;
    std::map<string, uint64_t> covers, checkIds;
    std::set<string> declaredCovers;
    vector<Violation> viols;
    std::set<string> violKeys;
    struct Sample { vector<std::pair<unsigned, u128>> in; vector<u128> obs; string end; };
    vector<Sample> sampleList;
    uint64_t sampleSeen = 0;
    std::map<std::pair<uint32_t, unsigned>, Expr*> symVars, undefVars;

    Engine() { EP = &pool; }

    // ---------------------------------------------------------------- solver
    struct CacheKey
    {
        vector<uint32_t> ids;
        bool operator==(const CacheKey& o) const { return ids == o.ids; }
    };
    struct CacheHash
    {
        size_t operator()(const CacheKey& k) const
        {
            uint64_t h = 1469598103934665603ull;
            for (auto x : k.ids) { h ^= x; h *= 1099511628211ull; }
            return h;
        }
    };
    struct CacheVal
    {
        bool sat;
        vector<std::pair<uint32_t, u128>> m;
    };
    std::unordered_map<CacheKey, CacheVal, CacheHash> qcache;

    void initZ3()
    {
        Z3_config cfg = Z3_mk_config();
        z3 = Z3_mk_context_rc(cfg);
        Z3_set_error_handler(z3, [](Z3_context c, Z3_error_code e)
                             { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); exit(3); });
        Z3_del_config(cfg);
        pool.ctx = z3;
        newSolver();
    }
    void newSolver()
    {
        if (solver) Z3_solver_dec_ref(z3, solver);
        solver = Z3_mk_solver_for_logic(z3, Z3_mk_string_symbol(z3, "QF_BV"));
        Z3_solver_inc_ref(z3, solver);
        Z3_params p = Z3_mk_params(z3);
        Z3_params_inc_ref(z3, p);
        Z3_params_set_uint(z3, p, Z3_mk_string_symbol(z3, "timeout"), (unsigned)(std::min(queryTimeout, nFresh > 3 ? 0.6 : 2.0) * 1000));
        Z3_solver_set_params(z3, solver, p);
        Z3_params_dec_ref(z3, p);
    }
    // queries the incremental solver does not decide within seconds go, on their own, through the
    // complete preprocessing of the bit-vector strategy
    uint64_t nFresh = 0;
    bool resolveSelects = false;
    Z3_solver freshSolver()
    {
        Z3_tactic t = Z3_mk_tactic(z3, "qfbv");
        Z3_tactic_inc_ref(z3, t);
        Z3_solver f = Z3_mk_solver_from_tactic(z3, t);
        Z3_solver_inc_ref(z3, f);
        Z3_tactic_dec_ref(z3, t);
        Z3_params p = Z3_mk_params(z3);
        Z3_params_inc_ref(z3, p);
        Z3_params_set_uint(z3, p, Z3_mk_string_symbol(z3, "timeout"), (unsigned)(queryTimeout * 1000));
        Z3_solver_set_params(z3, f, p);
        Z3_params_dec_ref(z3, p);
        return f;
    }
    std::unordered_map<Expr*, Z3_ast> proxies;
    std::unordered_map<unsigned, uint32_t> proxyId;
    std::unordered_map<uint32_t, vector<vector<uint32_t>>> cores;
    vector<uint32_t> mark;
    uint32_t markGen = 0;
    uint64_t nCoreHit = 0;
    unsigned nProxies = 0, nResets = 0;
    Z3_ast proxy(Expr* e)
    {
        auto it = proxies.find(e);
        if (it != proxies.end()) return it->second;
        Z3_ast b = Z3_mk_const(z3, Z3_mk_string_symbol(z3, ("p" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(z3));
        Z3_inc_ref(z3, b);
        Z3_ast im = Z3_mk_implies(z3, b, pool.toBool(e));
        Z3_inc_ref(z3, im);
        Z3_solver_assert(z3, solver, im);
        Z3_dec_ref(z3, im);
        proxies[e] = b;
        proxyId[Z3_get_ast_id(z3, b)] = e->id;
        nProxies++;
        return b;
    }
    vector<uint64_t> seenBits;
    // is (cons(s) && e) satisfiable?  On sat, fills *out with s.model overwritten by the new values.
    // returns 1 sat, 0 unsat, -1 unknown
    int maySat(State& s, Expr* e, Model* out)
    {
        if (pool.isTrue(e)) { if (out) *out = s.model; return 1; }
        if (pool.isFalse(e)) return 0;
        // known unsatisfiable core?
        {
            auto it = cores.find(e->id);
            if (it != cores.end())
            {
                markGen++;
                if (mark.size() < pool.arena.size() + 1) mark.resize(pool.arena.size() * 2 + 64);
                for (auto* x : s.cons) mark[x->id] = markGen;
                for (auto& c : it->second)
                {
                    bool all = true;
                    for (auto id : c) if (mark[id] != markGen) { all = false; break; }
                    if (all) { nCoreHit++; return 0; }
                }
            }
        }
        // slice
        size_t nb = pool.vars.size() / 64 + 1;
        if (seenBits.size() < nb) seenBits.resize(nb);
        std::fill(seenBits.begin(), seenBits.end(), 0);
        vector<uint32_t> slicevars;
        auto addVars = [&](VarSet* vs)
        {
            for (auto v : vs->v)
                if (!(seenBits[v >> 6] >> (v & 63) & 1)) { seenBits[v >> 6] |= 1ull << (v & 63); slicevars.push_back(v); }
        };
        auto hits = [&](VarSet* vs)
        {
            for (auto v : vs->v) if (seenBits[v >> 6] >> (v & 63) & 1) return true;
            return false;
        };
        addVars(pool.varsOf(e));
        vector<Expr*> sl;
        vector<Expr*> rest(s.cons.begin(), s.cons.end());
        bool ch = true;
        while (ch)
        {
            ch = false;
            size_t j = 0;
            for (size_t i = 0; i < rest.size(); i++)
            {
                VarSet* vs = pool.varsOf(rest[i]);
                if (hits(vs)) { addVars(vs); sl.push_back(rest[i]); ch = true; }
                else rest[j++] = rest[i];
            }
            rest.resize(j);
        }
        CacheKey key;
        for (auto* x : sl) key.ids.push_back(x->id);
        std::sort(key.ids.begin(), key.ids.end());
        key.ids.erase(std::unique(key.ids.begin(), key.ids.end()), key.ids.end());
        key.ids.push_back(e->id);
        auto it = qcache.find(key);
        if (it != qcache.end())
        {
            nCacheHit++;
            if (!it->second.sat) return 0;
            if (out)
            {
                *out = s.model;
                for (auto& kv : it->second.m) out->set(kv.first, kv.second);
            }
            return 1;
        }
        double ts = now();
        nQueries++;
        // Every constraint is asserted once, guarded by an assumption literal, so that the
        // bit-blasting and the learned clauses are shared between queries.
        if (nProxies > 60) { newSolver(); nProxies = 0; proxies.clear(); nResets++; }
        vector<Z3_ast> as;
        for (auto* x : sl) as.push_back(proxy(x));
        as.push_back(proxy(e));
        Z3_lbool r = Z3_solver_check_assumptions(z3, solver, (unsigned)as.size(), as.data());
        Z3_solver fresh = nullptr;
        if (r == Z3_L_UNDEF)
        {
            if (++nFresh == 4) { newSolver(); nProxies = 0; proxies.clear(); nResets++; }
            fresh = freshSolver();
            for (auto* x : sl) Z3_solver_assert(z3, fresh, pool.toBool(x));
            Z3_solver_assert(z3, fresh, pool.toBool(e));
            r = Z3_solver_check(z3, fresh);
        }
        CacheVal cvv;
        int ret;
        if (r == Z3_L_TRUE)
        {
            nSat++;
            Z3_model m = Z3_solver_get_model(z3, fresh ? fresh : solver);
            Z3_model_inc_ref(z3, m);
            for (auto v : slicevars)
            {
                Expr* ve = pool.mk(K_VAR, pool.vars[v].w, v);
                Z3_ast res;
                u128 val = 0;
                if (Z3_model_eval(z3, m, pool.toBV(ve), true, &res))
                {
                    Z3_inc_ref(z3, res);
                    const char* st = Z3_get_numeral_string(z3, res);
                    for (const char* p = st; *p; p++) val = val * 10 + (*p - '0');
                    Z3_dec_ref(z3, res);
                }
                cvv.m.push_back({v, val});
            }
            Z3_model_dec_ref(z3, m);
            cvv.sat = true;
            // the solver's model must satisfy the terms as this executor evaluates them
            Model mm = s.model;
            for (auto& kv : cvv.m) mm.set(kv.first, kv.second);
            bool good = pool.eval(e, mm) == 1;
            for (auto* x : sl) good = good && pool.eval(x, mm) == 1;
            if (!good) { fprintf(stderr, "model does not satisfy the query\n"); exit(9); }
            if (out) *out = mm;
            ret = 1;
        }
        else if (r == Z3_L_FALSE)
        {
            nUnsat++;
            cvv.sat = false;
            ret = 0;
            vector<uint32_t> ids;
            bool hasE = false;
            Z3_ast_vector core = fresh ? Z3_mk_ast_vector(z3) : Z3_solver_get_unsat_core(z3, solver);
            Z3_ast_vector_inc_ref(z3, core);
            for (unsigned i = 0; i < Z3_ast_vector_size(z3, core); i++)
            {
                uint32_t id = proxyId[Z3_get_ast_id(z3, Z3_ast_vector_get(z3, core, i))];
                if (id == e->id) hasE = true;
                else ids.push_back(id);
            }
            Z3_ast_vector_dec_ref(z3, core);
            if (hasE && ids.size() <= 8 && cores[e->id].size() < 200) cores[e->id].push_back(ids);
        }
        else { nUnknown++; ret = -1; }
        if (fresh) Z3_solver_dec_ref(z3, fresh);
        double d = now() - ts;
        solverTime += d;
        if (d > maxQuery) maxQuery = d;
        if (verbose && d > 2) fprintf(stderr, "slow query %.2fs: %s\n", d, pool.str(e, 5).c_str());
        if (const char* dd = getenv("VF_DUMP_SLOW"); dd && d > 1)
        {
            static int nd = 0;
            Z3_solver t = Z3_mk_solver(z3);
            Z3_solver_inc_ref(z3, t);
            for (auto* x : sl) Z3_solver_assert(z3, t, pool.toBool(x));
            Z3_solver_assert(z3, t, pool.toBool(e));
            if (FILE* f = fopen((std::string(dd) + "/q" + std::to_string(getpid()) + "_" + std::to_string(nd++) + ".smt2").c_str(), "w"))
            {
                fprintf(f, "; %.2fs result %d\n(set-logic QF_BV)\n%s\n(check-sat)\n", d, ret, Z3_solver_to_string(z3, t));
                fclose(f);
            }
            Z3_solver_dec_ref(z3, t);
        }
        if (ret >= 0) qcache.emplace(std::move(key), std::move(cvv));
        else { incomplete = true; incompleteWhy = "solver timeout"; }
        if (qcache.size() > 3000000) qcache.clear();
        return ret;
    }
    void addCons(State& s, Expr* e)
    {
        if (e->k == K_AND && e->w == 1) { addCons(s, e->a); addCons(s, e->b); return; }
        if (pool.isTrue(e)) return;
        s.cons.push_back(e);
    }
    // Decide a 1-bit condition on this state; may fork (the fork re-executes the current instruction).
    bool decide(State& s, Expr* c)
    {
        if (c->k == K_CONST) return c->v != 0;
        bool side = pool.eval(c, s.model) != 0;
        Expr* cs = side ? c : pool.mnot(c);
        Expr* other = side ? pool.mnot(c) : c;
        for (size_t i = s.cons.size(); i-- > 0;)
            if (s.cons[i] == cs) return side;
        Model m;
        int r = maySat(s, other, &m);
        if (r == 1)
        {
            State* n = new State(s);
            n->model = std::move(m);
            addCons(*n, other);
            n->fr.back().own();
            n->fr.back()->ip = curIp;  // re-execute
            n->insts = s.insts;
            n->forks++;
            nForks++;
            work.push_back(n);
            addCons(s, cs);
        }
        else if (r == 0) { s.cons.push_back(cs); }
        return side;
    }
    int curIp = 0;
    u128 concretize(State& s, const Val& v)
    {
        if (v.conc()) return v.c;
        Expr* e = v.e;
        u128 x = pool.eval(e, s.model);
        Expr* eq = pool.bin(K_EQ, e, pool.cst(x, e->w));
        decide(s, eq);  // model makes eq true
        return x;
    }

    // ---------------------------------------------------------------- reporting
    string whereOf(State& s)
    {
        string r;
        int n = 0;
        for (size_t i = s.fr.size(); i-- > 0 && n < 6;)
        {
            Frame& f = *s.fr[i];
            int ip = i + 1 == s.fr.size() ? curIp : f.ip - 1;
            if (ip < 0) ip = 0;
            Instruction* I = nullptr;
            auto& b = f.fn->blocks[f.bb];
            if (ip < (int)b.ins.size()) I = b.ins[ip].I;
            const DILocation* L = I ? I->getDebugLoc().get() : nullptr;
            bool any = false;
            while (L && n < 8)
            {
                string fn = L->getFilename().str();
                auto p = fn.rfind('/');
                if (p != string::npos) fn = fn.substr(p + 1);
                r += (r.empty() ? "" : " < ") + L->getScope()->getSubprogram()->getName().str() + "@" + fn + ":" + std::to_string(L->getLine());
                L = L->getInlinedAt();
                n++;
                any = true;
            }
            if (!any) { r += (r.empty() ? "" : " < ") + f.fn->F->getName().str(); n++; }
        }
        return r;
    }
    vector<std::pair<unsigned, u128>> inputsOf(State& s, const Model& m)
    {
        vector<std::pair<unsigned, u128>> r;
        for (Expr* e : s.inputs) r.push_back({e->w, pool.eval(e, m)});
        return r;
    }
    void report(State& s, const Model& m, const string& kind, const string& id, const string& msg)
    {
        Violation v;
        v.kind = kind;
        v.id = id;
        v.msg = msg;
        v.where = whereOf(s);
        v.inputs = inputsOf(s, m);
        string key = kind + "|" + id;
        if (id.empty()) key += v.where.substr(0, v.where.find(" < "));
        if (!violKeys.insert(key).second) return;
        viols.push_back(v);
        if (verbose) fprintf(stderr, "VIOL %s %s %s @ %s\n", kind.c_str(), id.c_str(), msg.c_str(), v.where.c_str());
    }
    [[noreturn]] void fail(State& s, const string& kind, const string& id, const string& msg)
    {
        report(s, s.model, kind, id, msg);
        throw PathEnd{"violation"};
    }
    void finishPath(State& s, const char* why)
    {
        nPaths++;
        // reservoir-free sampling: keep paths at exponentially spread positions plus first few
        sampleSeen++;
        bool take = (int)sampleList.size() < samples;
        size_t pos = sampleList.size();
        if (!take && samples > 0)
        {
            uint64_t h = sampleSeen * 0x9E3779B97F4A7C15ull;
            h ^= h >> 29;
            uint64_t k = h % sampleSeen;
            if (k < (uint64_t)samples) { take = true; pos = k; }
        }
        if (take)
        {
            for (Expr* e : s.observed) if (e->undef) return;
            Sample sm;
            sm.in = inputsOf(s, s.model);
            for (Expr* e : s.observed) sm.obs.push_back(pool.eval(e, s.model));
            sm.end = why;
            if (pos == sampleList.size()) sampleList.push_back(sm);
            else sampleList[pos] = sm;
        }
    }
    [[noreturn]] void unsupported(const string& what)
    {
        incomplete = true;
        incompleteWhy = "unsupported: " + what;
        if (verbose) fprintf(stderr, "UNSUPPORTED %s\n", what.c_str());
        throw PathEnd{"unsupported"};
    }

    // ---------------------------------------------------------------- memory access
    MemObj* objAt(State& s, uint64_t addr, uint64_t n, bool write, uint64_t& off, uint64_t& id)
    {
        id = addr >> 32;
        MemObj* o = id ? s.mem.get(id) : nullptr;
        if (!o)
        {
            if (addr < 0x100000000ull) fail(s, "memory", "", addr < 4096 ? "null pointer access" : "wild pointer access");
            fail(s, "memory", "", "access to dead or unknown object");
        }
        if (!o->alive) fail(s, "memory", "", "access to object out of lifetime");
        off = (addr & 0xffffffffull) - LOBASE;
        if ((addr & 0xffffffffull) < LOBASE || off > o->size || n > o->size - off)
            fail(s, "memory", "", string(write ? "write" : "read") + " out of bounds of " + o->what + " (size " + std::to_string(o->size) + ", offset " + std::to_string((int64_t)off) + ", bytes " + std::to_string(n) + ")");
        if (write && o->ro) fail(s, "memory", "", "write to constant memory");
        return o;
    }
    Expr* byteExpr(State& s, MemObj* o, uint64_t id, uint64_t i)
    {
        if (o->st[i] == B_CONC) return pool.cst(o->data[i], 8);
        if (o->st[i] == B_UNINIT)
        {
            Expr* v = undefVar(s, 8);
            o = s.mem.own(id);
            setSym(o, i, v, 0);
            return v;
        }
        SymByte& b = o->sym[i];
        return pool.extract(b.e, b.off * 8, 8);
    }
    Expr* undefVar(State& s, unsigned w)
    {
        auto k = std::make_pair(s.nundef++, w);
        Expr*& e = undefVars[k];
        if (!e) e = pool.var("undef" + std::to_string(k.first) + "_" + std::to_string(w), w, true);
        return e;
    }
    void setSym(MemObj* o, uint64_t i, Expr* e, uint8_t off)
    {
        if (o->sym.empty()) o->sym.resize(o->size);
        o->sym[i] = {e, off};
        o->st[i] = B_SYM;
    }
    Val loadInt(State& s, uint64_t addr, unsigned bytes, unsigned w)
    {
        uint64_t off, id;
        MemObj* o = objAt(s, addr, bytes, false, off, id);
        bool allC = true;
        for (unsigned i = 0; i < bytes; i++) if (o->st[off + i] != B_CONC) { allC = false; break; }
        if (allC)
        {
            u128 v = 0;
            for (unsigned i = 0; i < bytes; i++) v |= (u128)o->data[off + i] << (8 * i);
            return cv(v, w);
        }
        // one whole expression?
        if (o->st[off] == B_SYM && o->sym[off].off == 0 && o->sym[off].e->w == bytes * 8)
        {
            Expr* e = o->sym[off].e;
            bool ok = true;
            for (unsigned i = 1; i < bytes && ok; i++)
                ok = o->st[off + i] == B_SYM && o->sym[off + i].e == e && o->sym[off + i].off == i;
            if (ok) return ve(w == e->w ? e : pool.extract(e, 0, w));
        }
        bool allU = true;
        for (unsigned i = 0; i < bytes; i++) if (o->st[off + i] != B_UNINIT) allU = false;
        if (allU)
        {
            Expr* v = undefVar(s, bytes * 8);
            o = s.mem.own(id);
            for (unsigned i = 0; i < bytes; i++) setSym(o, off + i, v, i);
            return ve(w == v->w ? v : pool.extract(v, 0, w));
        }
        Expr* r = nullptr;
        for (unsigned i = 0; i < bytes; i++)
        {
            o = s.mem.get(id);
            Expr* b = byteExpr(s, o, id, off + i);
            r = r ? pool.concat(b, r) : b;
        }
        return ve(w == r->w ? r : pool.extract(r, 0, w));
    }
    void storeInt(State& s, uint64_t addr, unsigned bytes, const Val& v)
    {
        uint64_t off, id;
        objAt(s, addr, bytes, true, off, id);
        MemObj* o = s.mem.own(id);
        if (v.conc())
        {
            for (unsigned i = 0; i < bytes; i++) { o->data[off + i] = (uint8_t)(v.c >> (8 * i)); o->st[off + i] = B_CONC; }
            return;
        }
        Expr* e = v.e;
        if (e->w != bytes * 8) e = pool.zext(e, bytes * 8);
        if (e->k == K_CONCAT || e->k == K_ZEXT)
        {
            for (unsigned i = 0; i < bytes; i++)
            {
                Expr* b = pool.extract(e, 8 * i, 8);
                if (b->k == K_CONST) { o->data[off + i] = (uint8_t)b->v; o->st[off + i] = B_CONC; }
                else setSym(o, off + i, e, i);
            }
            return;
        }
        for (unsigned i = 0; i < bytes; i++) setSym(o, off + i, e, i);
    }
    void copyBytes(State& s, uint64_t dst, uint64_t src, uint64_t n)
    {
        if (n == 0) return;
        uint64_t so, sid, doff, did;
        MemObj* a = objAt(s, src, n, false, so, sid);
        objAt(s, dst, n, true, doff, did);
        vector<uint8_t> d(a->data.begin() + so, a->data.begin() + so + n), st(a->st.begin() + so, a->st.begin() + so + n);
        vector<SymByte> sy;
        bool anyS = false;
        for (auto x : st) if (x == B_SYM) anyS = true;
        if (anyS) sy.assign(a->sym.begin() + so, a->sym.begin() + so + n);
        MemObj* b = s.mem.own(did);
        std::copy(d.begin(), d.end(), b->data.begin() + doff);
        std::copy(st.begin(), st.end(), b->st.begin() + doff);
        if (anyS)
        {
            if (b->sym.empty()) b->sym.resize(b->size);
            std::copy(sy.begin(), sy.end(), b->sym.begin() + doff);
        }
    }
    uint64_t newObj(Memory& mem, uint64_t size, const char* what, bool uninit, bool ro = false)
    {
        MemObj* o = new MemObj;
        o->size = size;
        o->ro = ro;
        o->what = what;
        o->data.assign(size, 0);
        o->st.assign(size, uninit ? B_UNINIT : B_CONC);
        return mem.add(o);
    }

    // ---------------------------------------------------------------- constants
    unsigned widthOf(Type* t)
    {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isPointerTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        return 0;
    }
    Val constVal(Constant* C)
    {
        Type* t = C->getType();
        if (auto* ci = dyn_cast<ConstantInt>(C))
        {
            const APInt& a = ci->getValue();
            u128 v = a.getRawData()[0];
            if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
            if (a.getBitWidth() > 128) unsupported("wide int const");
            return cv(v, a.getBitWidth());
        }
        if (isa<ConstantPointerNull>(C)) return cv(0, 64);
        if (auto* gv = dyn_cast<GlobalValue>(C))
        {
            auto it = gaddr.find(gv);
            if (it != gaddr.end()) return cv(it->second, 64);
            if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
            unsupported("global " + gv->getName().str());
        }
        if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C))
        {
            if (t->isStructTy() || t->isArrayTy())
            {
                Val v;
                v.agg = RP<Agg>(new Agg);
                unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
                for (unsigned i = 0; i < n; i++)
                {
                    Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
                    v.agg->v.push_back(constVal(isa<UndefValue>(C) ? (Constant*)UndefValue::get(et) : Constant::getNullValue(et)));
                }
                return v;
            }
            return cv(0, widthOf(t));
        }
        if (auto* cf = dyn_cast<ConstantFP>(C))
        {
            APInt a = cf->getValueAPF().bitcastToAPInt();
            return cv(a.getRawData()[0], a.getBitWidth());
        }
        if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataSequential>(C))
        {
            Val v;
            v.agg = RP<Agg>(new Agg);
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) v.agg->v.push_back(constVal(C->getAggregateElement(i)));
            return v;
        }
        if (auto* ce = dyn_cast<ConstantExpr>(C))
        {
            switch (ce->getOpcode())
            {
            case Instruction::GetElementPtr:
            {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsupported("const gep");
                Val b = constVal(ce->getOperand(0));
                return cv(b.c + off.getZExtValue(), 64);
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt:
            {
                Val b = constVal(ce->getOperand(0));
                return cv(b.c, widthOf(t));
            }
            case Instruction::Add: return cv(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, widthOf(t));
            case Instruction::Sub: return cv(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, widthOf(t));
            case Instruction::Mul: return cv(constVal(ce->getOperand(0)).c * constVal(ce->getOperand(1)).c, widthOf(t));
            case Instruction::And: return cv(constVal(ce->getOperand(0)).c & constVal(ce->getOperand(1)).c, widthOf(t));
            case Instruction::Or: return cv(constVal(ce->getOperand(0)).c | constVal(ce->getOperand(1)).c, widthOf(t));
            case Instruction::Xor: return cv(constVal(ce->getOperand(0)).c ^ constVal(ce->getOperand(1)).c, widthOf(t));
            case Instruction::Shl: return cv(constVal(ce->getOperand(0)).c << (constVal(ce->getOperand(1)).c & 63), widthOf(t));
            case Instruction::LShr: return cv(constVal(ce->getOperand(0)).c >> (constVal(ce->getOperand(1)).c & 63), widthOf(t));
            case Instruction::Select: return constVal(ce->getOperand(constVal(ce->getOperand(0)).c ? 1 : 2));
            case Instruction::SExt: { unsigned w = widthOf(ce->getOperand(0)->getType()); uint64_t x = constVal(ce->getOperand(0)).c; return cv(w < 64 ? (uint64_t)((int64_t)(x << (64 - w)) >> (64 - w)) : x, widthOf(t)); }
            case Instruction::ICmp:
            {
                uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
                unsigned w = widthOf(ce->getOperand(0)->getType());
                int64_t sa = (int64_t)(a << (64 - w)), sb = (int64_t)(b << (64 - w));
                bool r;
                switch (ce->getPredicate())
                {
                case CmpInst::ICMP_EQ: r = a == b; break;
                case CmpInst::ICMP_NE: r = a != b; break;
                case CmpInst::ICMP_UGT: r = a > b; break;
                case CmpInst::ICMP_UGE: r = a >= b; break;
                case CmpInst::ICMP_ULT: r = a < b; break;
                case CmpInst::ICMP_ULE: r = a <= b; break;
                case CmpInst::ICMP_SGT: r = sa > sb; break;
                case CmpInst::ICMP_SGE: r = sa >= sb; break;
                case CmpInst::ICMP_SLT: r = sa < sb; break;
                default: r = sa <= sb; break;
                }
                return cv(r, 1);
            }
            default: break;
            }
            { string str; raw_string_ostream os(str); ce->print(os); unsupported("constant expression " + os.str().substr(0, 200)); }
        }
        if (t->isMetadataTy() || t->isLabelTy()) return Val();
        unsupported("constant kind");
    }
    void writeConst(MemObj* o, uint64_t off, Constant* C)
    {
        Type* t = C->getType();
        if (isa<UndefValue>(C)) return;  // leave zero
        if (auto* st = dyn_cast<StructType>(t))
        {
            const StructLayout* L = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(o, off + L->getElementOffset(i), C->getAggregateElement(i));
            return;
        }
        if (t->isArrayTy())
        {
            uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
            for (uint64_t i = 0; i < t->getArrayNumElements(); i++) writeConst(o, off + i * es, C->getAggregateElement(i));
            return;
        }
        if (t->isVectorTy()) unsupported("vector constant");
        Val v = constVal(C);
        unsigned n = DL->getTypeStoreSize(t);
        for (unsigned i = 0; i < n; i++) o->data[off + i] = (uint8_t)(v.c >> (8 * i));
    }
    void setupGlobals()
    {
        for (auto& F : *M)
        {
            uint64_t id = newObj(initMem, 1, "function", false, true);
            gaddr[&F] = baseOf(id);
            faddr[baseOf(id)] = &F;
        }
        for (auto& G : M->globals())
        {
            uint64_t sz = DL->getTypeAllocSize(G.getValueType());
            if (G.isDeclaration() && sz < 64) sz = 64;
            uint64_t id = newObj(initMem, sz, "global", false, false);
            gaddr[&G] = baseOf(id);
        }
        for (auto& G : M->globals())
        {
            uint64_t id = gaddr[&G] >> 32;
            MemObj* o = initMem.own(id);
            if (G.hasInitializer() && G.getName() != "llvm.global_ctors" && G.getName() != "llvm.used" && G.getName() != "llvm.compiler.used")
            {
                try { writeConst(o, 0, G.getInitializer()); }
                catch (PathEnd&) { incomplete = false; }
            }
            o->ro = G.isConstant();
            o->what = "global";
        }
    }

    // ---------------------------------------------------------------- decoding
    Fn* getFn(Function* F)
    {
        auto& p = fns[F];
        if (!p) { p.reset(new Fn); p->F = F; }
        if (!p->decoded) { p->decoded = true; decode(*p); }
        return p.get();
    }
    void decode(Fn& fn)
    {
        std::map<const llvm::Value*, int> slot;
        std::map<const BasicBlock*, int> bbi;
        int n = 0;
        for (auto& a : fn.F->args()) { slot[&a] = n; fn.argSlots.push_back(n++); }
        int bi = 0;
        for (auto& B : *fn.F)
        {
            bbi[&B] = bi++;
            for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
        }
        fn.nslots = n;
        fn.blocks.resize(bi);
        auto mkop = [&](llvm::Value* v) -> Opnd
        {
            Opnd o;
            auto it = slot.find(v);
            if (it != slot.end()) { o.slot = it->second; return o; }
            if (auto* c = dyn_cast<Constant>(v)) { o.k = constVal(c); return o; }
            return o;
        };
        for (auto& B : *fn.F)
        {
            auto& db = fn.blocks[bbi[&B]];
            for (auto& I : B)
            {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                db.ins.emplace_back();
                DInst& d = db.ins.back();
                d.I = &I;
                d.op = I.getOpcode();
                d.ty = I.getType();
                if (!I.getType()->isVoidTy()) { d.dst = slot[&I]; d.w = widthOf(I.getType()); }
                if (auto* ci = dyn_cast<CmpInst>(&I)) d.pred = ci->getPredicate();
                if (auto* g = dyn_cast<GetElementPtrInst>(&I))
                {
                    d.ops.push_back(mkop(g->getPointerOperand()));
                    int idx = 0;
                    for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++idx)
                    {
                        llvm::Value* ov = gi.getOperand();
                        if (StructType* st = gi.getStructTypeOrNull())
                        {
                            d.constOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ov)->getZExtValue());
                        }
                        else
                        {
                            uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto* c = dyn_cast<ConstantInt>(ov)) d.constOff += (int64_t)sz * c->getSExtValue();
                            else { d.ops.push_back(mkop(ov)); d.scaled.push_back({(int)d.ops.size() - 1, sz}); }
                        }
                    }
                    continue;
                }
                if (auto* br = dyn_cast<BranchInst>(&I))
                {
                    d.t0 = bbi[br->getSuccessor(0)];
                    if (br->isConditional()) { d.ops.push_back(mkop(br->getCondition())); d.t1 = bbi[br->getSuccessor(1)]; }
                    continue;
                }
                if (auto* sw = dyn_cast<SwitchInst>(&I))
                {
                    d.ops.push_back(mkop(sw->getCondition()));
                    d.t0 = bbi[sw->getDefaultDest()];
                    for (auto& c : sw->cases()) d.cases.push_back({constVal(c.getCaseValue()).c, bbi[c.getCaseSuccessor()]});
                    continue;
                }
                if (auto* ph = dyn_cast<PHINode>(&I))
                {
                    for (unsigned i = 0; i < ph->getNumIncomingValues(); i++)
                    {
                        d.ops.push_back(mkop(ph->getIncomingValue(i)));
                        d.inBlocks.push_back(bbi[ph->getIncomingBlock(i)]);
                    }
                    continue;
                }
                if (auto* cb = dyn_cast<CallBase>(&I))
                {
                    for (unsigned i = 0; i < cb->arg_size(); i++)
                    {
                        if (cb->getArgOperand(i)->getType()->isMetadataTy()) { d.ops.emplace_back(); d.byval.push_back(0); continue; }
                        d.ops.push_back(mkop(cb->getArgOperand(i)));
                        d.byval.push_back(cb->isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
                    }
                    Function* cf = cb->getCalledFunction();
                    if (!cf)
                    {
                        auto* st = cb->getCalledOperand()->stripPointerCasts();
                        cf = dyn_cast<Function>(st);
                        if (auto* ga = dyn_cast<GlobalAlias>(st)) cf = dyn_cast<Function>(ga->getAliaseeObject());
                    }
                    if (cf)
                    {
                        d.extf = cf;
                        d.iid = cf->getIntrinsicID();
                    }
                    else d.ops.push_back(mkop(cb->getCalledOperand()));
                    continue;
                }
                if (auto* ld = dyn_cast<LoadInst>(&I)) d.bytes = DL->getTypeStoreSize(ld->getType());
                if (auto* st = dyn_cast<StoreInst>(&I)) { d.bytes = DL->getTypeStoreSize(st->getValueOperand()->getType()); d.ty = st->getValueOperand()->getType(); }
                if (auto* al = dyn_cast<AllocaInst>(&I)) { d.bytes = DL->getTypeAllocSize(al->getAllocatedType()); }
                if (auto* evi = dyn_cast<ExtractValueInst>(&I)) d.idxs.assign(evi->idx_begin(), evi->idx_end());
                if (auto* ivi = dyn_cast<InsertValueInst>(&I)) d.idxs.assign(ivi->idx_begin(), ivi->idx_end());
                for (auto& o : I.operands()) d.ops.push_back(mkop(o.get()));
            }
        }
    }

    // ---------------------------------------------------------------- execution
    void pushFrame(State& s, Fn* fn, vector<Val>& args, int retDst)
    {
        if (s.fr.size() > 400) fail(s, "nontermination", "", "call depth exceeded");
        Frame* f = new Frame;
        f->fn = fn;
        f->r.resize(fn->nslots);
        for (size_t i = 0; i < fn->argSlots.size() && i < args.size(); i++) f->r[fn->argSlots[i]] = args[i];
        f->retDst = retDst;
        s.fr.push_back(RP<Frame>(f));
    }
    void popFrame(State& s)
    {
        for (auto id : s.fr.back()->allocas) s.mem.drop(id);
        s.fr.pop_back();
    }

    Val loadTy(State& s, uint64_t addr, Type* t)
    {
        if (t->isStructTy() || t->isArrayTy())
        {
            Val v;
            v.agg = RP<Agg>(new Agg);
            if (auto* st = dyn_cast<StructType>(t))
            {
                const StructLayout* L = DL->getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->v.push_back(loadTy(s, addr + L->getElementOffset(i), st->getElementType(i)));
            }
            else
                for (unsigned i = 0; i < t->getArrayNumElements(); i++) v.agg->v.push_back(loadTy(s, addr + i * DL->getTypeAllocSize(t->getArrayElementType()), t->getArrayElementType()));
            return v;
        }
        unsigned w = widthOf(t);
        if (!w || w > 128) unsupported("load type");
        return loadInt(s, addr, DL->getTypeStoreSize(t), w);
    }
    void storeTy(State& s, uint64_t addr, Type* t, const Val& v)
    {
        if (v.agg)
        {
            if (auto* st = dyn_cast<StructType>(t))
            {
                const StructLayout* L = DL->getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, addr + L->getElementOffset(i), st->getElementType(i), v.agg->v[i]);
            }
            else
                for (unsigned i = 0; i < t->getArrayNumElements(); i++) storeTy(s, addr + i * DL->getTypeAllocSize(t->getArrayElementType()), t->getArrayElementType(), v.agg->v[i]);
            return;
        }
        unsigned w = widthOf(t);
        if (!w || w > 128) unsupported("store type");
        storeInt(s, addr, DL->getTypeStoreSize(t), v);
    }
    Val binop(unsigned op, const Val& a, const Val& b)
    {
        Kind k;
        switch (op)
        {
        case Instruction::Add: k = K_ADD; break;
        case Instruction::Sub: k = K_SUB; break;
        case Instruction::Mul: k = K_MUL; break;
        case Instruction::UDiv: k = K_UDIV; break;
        case Instruction::SDiv: k = K_SDIV; break;
        case Instruction::URem: k = K_UREM; break;
        case Instruction::SRem: k = K_SREM; break;
        case Instruction::And: k = K_AND; break;
        case Instruction::Or: k = K_OR; break;
        case Instruction::Xor: k = K_XOR; break;
        case Instruction::Shl: k = K_SHL; break;
        case Instruction::LShr: k = K_LSHR; break;
        case Instruction::AShr: k = K_ASHR; break;
        default: unsupported("binop " + std::to_string(op));
        }
        return kbin(k, a, b);
    }
    Val kbin(Kind k, const Val& a, const Val& b)
    {
        if (a.conc() && b.conc()) return cv(ExprPool::fold(k, a.w, a.c, b.c), (k >= K_EQ && k <= K_SLE) ? 1 : a.w);
        return ve(pool.bin(k, ex(a), ex(b)));
    }
    Val vnot(const Val& a) { return kbin(K_XOR, a, cv(1, 1)); }
    Val icmp(unsigned p, const Val& a, const Val& b)
    {
        switch (p)
        {
        case CmpInst::ICMP_EQ: return kbin(K_EQ, a, b);
        case CmpInst::ICMP_NE: return vnot(kbin(K_EQ, a, b));
        case CmpInst::ICMP_ULT: return kbin(K_ULT, a, b);
        case CmpInst::ICMP_ULE: return kbin(K_ULE, a, b);
        case CmpInst::ICMP_UGT: return kbin(K_ULT, b, a);
        case CmpInst::ICMP_UGE: return kbin(K_ULE, b, a);
        case CmpInst::ICMP_SLT: return kbin(K_SLT, a, b);
        case CmpInst::ICMP_SLE: return kbin(K_SLE, a, b);
        case CmpInst::ICMP_SGT: return kbin(K_SLT, b, a);
        case CmpInst::ICMP_SGE: return kbin(K_SLE, b, a);
        default: unsupported("cmp pred");
        }
    }
    Val vite(const Val& c, const Val& a, const Val& b)
    {
        if (c.conc()) return c.c ? a : b;
        if (a.agg)
        {
            Val r;
            r.agg = RP<Agg>(new Agg);
            for (size_t i = 0; i < a.agg->v.size(); i++) r.agg->v.push_back(vite(c, a.agg->v[i], b.agg->v[i]));
            return r;
        }
        return ve(pool.ite(c.e, ex(a), ex(b)));
    }
    Val vzext(const Val& a, unsigned w) { return a.conc() ? cv(a.c, w) : ve(pool.zext(a.e, w)); }
    Val vsext(const Val& a, unsigned w) { return a.conc() ? cv((u128)sextv(a.c, a.w), w) : ve(pool.sext(a.e, w)); }
    Val vtrunc(const Val& a, unsigned w) { return a.conc() ? cv(a.c, w) : ve(pool.extract(a.e, 0, w)); }

    void jump(State& s, Frame& f, int to)
    {
        f.prev = f.bb;
        f.bb = to;
        f.ip = 0;
        // phis, in parallel
        auto& b = f.fn->blocks[to];
        vector<std::pair<int, Val>> tmp;
        size_t i = 0;
        for (; i < b.ins.size() && b.ins[i].op == Instruction::PHI; i++)
        {
            DInst& d = b.ins[i];
            d.covered = true;
            size_t k = 0;
            while (d.inBlocks[k] != f.prev) k++;
            tmp.push_back({d.dst, d.ops[k].slot >= 0 ? f.r[d.ops[k].slot] : d.ops[k].k});
        }
        for (auto& t : tmp) f.r[t.first] = std::move(t.second);
        f.ip = i;
    }

    string cstr(State& s, uint64_t addr)
    {
        string r;
        uint64_t id = addr >> 32;
        MemObj* o = s.mem.get(id);
        if (!o) return "?";
        for (uint64_t i = (addr & 0xffffffff) - LOBASE; i < o->size && o->data[i]; i++) r += (char)o->data[i];
        return r;
    }

    void abortPath(State& s, const string& what)
    {
        if (s.expectAbort)
        {
            nExpectedAborts++;
            finishPath(s, "abort");
            throw PathEnd{"abort"};
        }
        fail(s, "abort", "", "unexpected abort: " + what);
    }

    // returns true if handled
    bool external(State& s, Frame& f, DInst& d, vector<Val>& a)
    {
        StringRef nm = d.extf->getName();
        auto ret = [&](Val v) { if (d.dst >= 0) f.r[d.dst] = std::move(v); };
        if (nm.starts_with("vf_"))
        {
            if (nm == "vf_sym")
            {
                unsigned w = (unsigned)concretize(s, a[0]);
                auto key = std::make_pair((uint32_t)s.inputs.size(), w);
                Expr*& e = symVars[key];
                if (!e) e = pool.var("in" + std::to_string(key.first) + "_" + std::to_string(w), w, false);
                s.inputs.push_back(e);
                ret(ve(pool.zext(e, 64)));
                return true;
            }
            if (nm == "vf_assume")
            {
                Val c = a[0];
                if (c.w > 1) c = vnot(kbin(K_EQ, c, cv(0, c.w)));
                if (c.conc()) { if (!c.c) throw PathEnd{"assume"}; return true; }
                if (pool.eval(c.e, s.model) != 0) { addCons(s, c.e); return true; }
                Model m;
                int r = maySat(s, c.e, &m);
                if (r != 1) throw PathEnd{"assume"};
                s.model = m;
                addCons(s, c.e);
                return true;
            }
            if (nm == "vf_check")
            {
                string id = cstr(s, (uint64_t)a[1].c);
                checkIds[id]++;
                nChecks++;
                Val c = a[0];
                if (c.w > 1) c = vnot(kbin(K_EQ, c, cv(0, c.w)));
                if (c.conc())
                {
                    if (!c.c) fail(s, "check", id, "assertion can fail");
                    return true;
                }
                nChecksSolver++;
                if (pool.eval(c.e, s.model) == 0) fail(s, "check", id, "assertion can fail");
                Model m;
                int r = maySat(s, pool.mnot(c.e), &m);
                if (r == 1)
                {
                    report(s, m, "check", id, "assertion can fail: " + pool.str(c.e, 4));
                    throw PathEnd{"violation"};
                }
                return true;
            }
            if (nm == "vf_cover") { covers[cstr(s, (uint64_t)a[0].c)]++; return true; }
            if (nm == "vf_observe") { s.observed.push_back(ex(a[0])); return true; }
            if (nm == "vf_end") { finishPath(s, "end"); throw PathEnd{"end"}; }
            if (nm == "vf_expect_abort") { s.expectAbort = a[0].c != 0; return true; }
            if (nm == "vf_allow_alloc") { s.allowAlloc = a[0].c != 0; return true; }
            if (nm == "vf_concretize") { u128 v = concretize(s, a[0]); ret(cv(v, 64)); return true; }
            if (nm == "vf_is_native") { ret(cv(0, 32)); return true; }
            unsupported(nm.str());
        }
        if (nm == "memcpy" || nm == "memmove")
        {
            copyBytes(s, (uint64_t)concretize(s, a[0]), (uint64_t)concretize(s, a[1]), (uint64_t)concretize(s, a[2]));
            ret(a[0]);
            return true;
        }
        if (nm == "memset") { doMemset(s, a); ret(a[0]); return true; }
        if (nm == "memcmp" || nm == "bcmp")
        {
            uint64_t p = (uint64_t)concretize(s, a[0]), q = (uint64_t)concretize(s, a[1]), n = (uint64_t)concretize(s, a[2]);
            Val r = cv(0, 32);
            if (n)
            {
                uint64_t o1, i1, o2, i2;
                objAt(s, p, n, false, o1, i1);
                objAt(s, q, n, false, o2, i2);
            }
            for (uint64_t i = n; i-- > 0;)
            {
                Val x = loadInt(s, p + i, 1, 8), y = loadInt(s, q + i, 1, 8);
                r = vite(kbin(K_EQ, x, y), r, kbin(K_SUB, vzext(x, 32), vzext(y, 32)));
            }
            ret(r);
            return true;
        }
        if (nm == "strlen")
        {
            uint64_t p = (uint64_t)concretize(s, a[0]);
            uint64_t i = 0;
            for (;; i++)
            {
                Val x = loadInt(s, p + i, 1, 8);
                Val z = kbin(K_EQ, x, cv(0, 8));
                if (z.conc() ? z.c != 0 : decide(s, z.e)) break;
            }
            ret(cv(i, 64));
            return true;
        }
        if (nm == "strcmp" || nm == "strncmp")
        {
            uint64_t p = (uint64_t)concretize(s, a[0]), q = (uint64_t)concretize(s, a[1]);
            uint64_t n = nm == "strncmp" ? (uint64_t)concretize(s, a[2]) : ~0ull;
            for (uint64_t i = 0; i < n; i++)
            {
                Val x = loadInt(s, p + i, 1, 8), y = loadInt(s, q + i, 1, 8);
                Val z = kbin(K_EQ, x, y);
                if (!(z.conc() ? z.c != 0 : decide(s, z.e))) { ret(kbin(K_SUB, vzext(x, 32), vzext(y, 32))); return true; }
                Val t = kbin(K_EQ, x, cv(0, 8));
                if (t.conc() ? t.c != 0 : decide(s, t.e)) break;
            }
            ret(cv(0, 32));
            return true;
        }
        if (nm == "strchr")
        {
            uint64_t p = (uint64_t)concretize(s, a[0]);
            Val c8 = vtrunc(a[1], 8);
            for (uint64_t i = 0;; i++)
            {
                Val x = loadInt(s, p + i, 1, 8);
                Val z = kbin(K_EQ, x, c8);
                if (z.conc() ? z.c != 0 : decide(s, z.e)) { ret(cv(p + i, 64)); return true; }
                Val t = kbin(K_EQ, x, cv(0, 8));
                if (t.conc() ? t.c != 0 : decide(s, t.e)) { ret(cv(0, 64)); return true; }
            }
        }
        if (nm == "memchr")
        {
            uint64_t p = (uint64_t)concretize(s, a[0]), n = (uint64_t)concretize(s, a[2]);
            Val c8 = vtrunc(a[1], 8);
            uint64_t i = 0;
            for (; i < n; i++)
            {
                Val x = loadInt(s, p + i, 1, 8);
                Val z = kbin(K_EQ, x, c8);
                if (z.conc() ? z.c != 0 : decide(s, z.e)) break;
            }
            ret(cv(i < n ? p + i : 0, 64));
            return true;
        }
        if (nm == "malloc" || nm == "_Znwm" || nm == "_Znam" || nm == "_ZnwmSt11align_val_t" || nm == "_ZnamSt11align_val_t" || nm == "_ZnwmRKSt9nothrow_t" || nm == "_ZnamRKSt9nothrow_t")
        {
            if (!s.allowAlloc) fail(s, "alloc", "dynamic-allocation", "dynamic allocation performed");
            uint64_t id = newObj(s.mem, (uint64_t)concretize(s, a[0]), "heap", true);
            ret(cv(baseOf(id), 64));
            return true;
        }
        if (nm == "free" || nm == "_ZdlPv" || nm == "_ZdaPv" || nm == "_ZdlPvm" || nm == "_ZdaPvm" || nm == "_ZdlPvmSt11align_val_t" || nm == "_ZdlPvRKSt9nothrow_t" || nm == "_ZdaPvRKSt9nothrow_t")
        {
            uint64_t p = (uint64_t)concretize(s, a[0]);
            if (p)
            {
                MemObj* o = s.mem.get(p >> 32);
                if (!o || (p & 0xffffffff) != LOBASE) fail(s, "memory", "", "invalid free");
                s.mem.drop(p >> 32);
            }
            return true;
        }
        if (nm == "abort" || nm == "_ZSt9terminatev" || nm == "__assert_fail" || nm == "exit" || nm == "_exit" ||
            nm.starts_with("_ZSt21__glibcxx_assert_fail") || nm.starts_with("_ZSt20__throw_") || nm.starts_with("_ZSt16__throw_") || nm.contains("__throw_") || nm == "__cxa_pure_virtual" || nm == "__clang_call_terminate")
        {
            abortPath(s, demangle(nm.str()));
            return true;
        }
        if (nm == "__cxa_atexit" || nm == "__cxa_guard_release" || nm == "__cxa_guard_abort") { ret(cv(0, 32)); return true; }
        if (nm == "__cxa_guard_acquire")
        {
            Val g = loadInt(s, (uint64_t)a[0].c, 1, 8);
            if (g.c) ret(cv(0, 32));
            else { storeInt(s, (uint64_t)a[0].c, 1, cv(1, 8)); ret(cv(1, 32)); }
            return true;
        }
        unsupported("external function " + nm.str());
    }
    void doMemset(State& s, vector<Val>& a)
    {
        uint64_t p = (uint64_t)concretize(s, a[0]), n = (uint64_t)concretize(s, a[2]);
        if (!n) return;
        uint64_t off, id;
        objAt(s, p, n, true, off, id);
        Val b = vtrunc(a[1], 8);
        MemObj* o = s.mem.own(id);
        for (uint64_t i = 0; i < n; i++)
        {
            if (b.conc()) { o->data[off + i] = (uint8_t)b.c; o->st[off + i] = B_CONC; }
            else setSym(o, off + i, b.e, 0);
        }
    }

    bool intrinsic(State& s, Frame& f, DInst& d, vector<Val>& a)
    {
        auto ret = [&](Val v) { if (d.dst >= 0) f.r[d.dst] = std::move(v); };
        switch (d.iid)
        {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            {
                uint64_t n = (uint64_t)concretize(s, a[2]);
                copyBytes(s, (uint64_t)concretize(s, a[0]), (uint64_t)concretize(s, a[1]), n);
                return true;
            }
        case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(s, a); return true;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        {
            uint64_t p = (uint64_t)a[1].c;
            MemObj* o0 = s.mem.get(p >> 32);
            if (!o0 || (p & 0xffffffff) != LOBASE) return true;
            MemObj* o = s.mem.own(p >> 32);
            if (d.iid == Intrinsic::lifetime_start)
            {
                o->alive = true;
                std::fill(o->st.begin(), o->st.end(), B_UNINIT);
            }
            else o->alive = false;
            return true;
        }
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::dbg_label:
        case Intrinsic::sideeffect:
            return true;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: ret(cv(0, 64)); return true;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ssa_copy:
            ret(a[0]);
            return true;
        case Intrinsic::is_constant: ret(cv(0, 1)); return true;
        case Intrinsic::objectsize: ret(cv(a[1].c ? 0 : ~(u128)0, d.w)); return true;
        case Intrinsic::umax: ret(vite(kbin(K_ULT, a[0], a[1]), a[1], a[0])); return true;
        case Intrinsic::umin: ret(vite(kbin(K_ULT, a[0], a[1]), a[0], a[1])); return true;
        case Intrinsic::smax: ret(vite(kbin(K_SLT, a[0], a[1]), a[1], a[0])); return true;
        case Intrinsic::smin: ret(vite(kbin(K_SLT, a[0], a[1]), a[0], a[1])); return true;
        case Intrinsic::abs: ret(vite(kbin(K_SLT, a[0], cv(0, d.w)), kbin(K_SUB, cv(0, d.w), a[0]), a[0])); return true;
        case Intrinsic::uadd_sat:
        {
            Val r = kbin(K_ADD, a[0], a[1]);
            ret(vite(kbin(K_ULT, r, a[0]), cv(~(u128)0, d.w), r));
            return true;
        }
        case Intrinsic::usub_sat: ret(vite(kbin(K_ULT, a[0], a[1]), cv(0, d.w), kbin(K_SUB, a[0], a[1]))); return true;
        case Intrinsic::ctpop:
        {
            Val r = cv(0, d.w);
            for (unsigned i = 0; i < d.w; i++) r = kbin(K_ADD, r, vzext(bitOf(a[0], i), d.w));
            ret(r);
            return true;
        }
        case Intrinsic::ctlz:
        {
            Val r = cv(d.w, d.w);
            for (unsigned i = 0; i < d.w; i++) r = vite(bitOf(a[0], i), cv(d.w - 1 - i, d.w), r);
            ret(r);
            return true;
        }
        case Intrinsic::cttz:
        {
            Val r = cv(d.w, d.w);
            for (unsigned i = d.w; i-- > 0;) r = vite(bitOf(a[0], i), cv(i, d.w), r);
            ret(r);
            return true;
        }
        case Intrinsic::bitreverse:
        {
            Expr* e = ex(a[0]);
            Expr* r = nullptr;
            for (unsigned i = 0; i < d.w; i++) { Expr* b = pool.extract(e, i, 1); r = r ? pool.concat(r, b) : b; }
            ret(ve(r));
            return true;
        }
        case Intrinsic::sadd_sat: case Intrinsic::ssub_sat:
        {
            unsigned w = d.w;
            Val r = kbin(d.iid == Intrinsic::sadd_sat ? K_ADD : K_SUB, a[0], a[1]);
            Val other = d.iid == Intrinsic::sadd_sat ? kbin(K_XOR, a[1], r) : kbin(K_XOR, a[0], a[1]);
            Val o = bitOf(kbin(K_AND, kbin(K_XOR, a[0], r), other), w - 1);
            u128 top = (u128)1 << (w - 1);
            ret(vite(o, vite(bitOf(a[0], w - 1), cv(top, w), cv(top - 1, w)), r));
            return true;
        }
        case Intrinsic::bswap:
        {
            Expr* e = ex(a[0]);
            Expr* r = nullptr;
            for (unsigned i = 0; i < d.w; i += 8) { Expr* b = pool.extract(e, i, 8); r = r ? pool.concat(r, b) : b; }
            ret(ve(r));
            return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr:
        {
            u128 sh = concretize(s, a[2]) % d.w;
            if (d.iid == Intrinsic::fshr) { if (sh == 0) { ret(a[1]); return true; } sh = d.w - sh; }
            if (sh == 0) { ret(a[0]); return true; }
            ret(kbin(K_OR, kbin(K_SHL, a[0], cv(sh, d.w)), kbin(K_LSHR, a[1], cv(d.w - sh, d.w))));
            return true;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
        case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
        {
            unsigned w = a[0].w;
            Val r, o;
            bool sg = d.iid == Intrinsic::sadd_with_overflow || d.iid == Intrinsic::ssub_with_overflow || d.iid == Intrinsic::smul_with_overflow;
            bool mul = d.iid == Intrinsic::umul_with_overflow || d.iid == Intrinsic::smul_with_overflow;
            Kind k = mul ? K_MUL : (d.iid == Intrinsic::uadd_with_overflow || d.iid == Intrinsic::sadd_with_overflow) ? K_ADD : K_SUB;
            r = kbin(k, a[0], a[1]);
            unsigned W = mul ? 2 * w : w + 1;
            if (k == K_SUB && !sg) o = kbin(K_ULT, a[0], a[1]);
            else if (k == K_ADD && !sg) o = kbin(K_ULT, r, a[0]);
            else if (W <= 128)
            {
                Val wa = sg ? vsext(a[0], W) : vzext(a[0], W), wb = sg ? vsext(a[1], W) : vzext(a[1], W);
                Val wr = kbin(k, wa, wb);
                o = vnot(kbin(K_EQ, wr, sg ? vsext(r, W) : vzext(r, W)));
            }
            else if (!mul)
            {
                Val other = k == K_ADD ? kbin(K_XOR, a[1], r) : kbin(K_XOR, a[0], a[1]);
                o = bitOf(kbin(K_AND, kbin(K_XOR, a[0], r), other), w - 1);
            }
            else unsupported("wide overflow op");
            Val v;
            v.agg = RP<Agg>(new Agg);
            v.agg->v = {r, o};
            ret(v);
            return true;
        }
        case Intrinsic::trap: case Intrinsic::debugtrap: fail(s, "ub", "", "trap");
        case Intrinsic::ubsantrap: fail(s, "ub", "", "undefined behaviour (ubsan check " + std::to_string((int)a[0].c) + ")");
        default: break;
        }
        unsupported("intrinsic " + d.extf->getName().str());
    }
    Val bitOf(const Val& a, unsigned i) { return a.conc() ? cv((a.c >> i) & 1, 1) : ve(pool.extract(a.e, i, 1)); }

    void step(State& s)
    {
        Frame* f = s.fr.back().own();
        DInst& d = f->fn->blocks[f->bb].ins[f->ip];
        curIp = f->ip;
        f->ip++;
        s.insts++;
        nInst++;
        d.covered = true;
        auto op = [&](int i) -> const Val& { const Opnd& o = d.ops[i]; return o.slot >= 0 ? f->r[o.slot] : o.k; };
        switch (d.op)
        {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            f->r[d.dst] = binop(d.op, op(0), op(1));
            return;
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        {
            Val z = kbin(K_EQ, op(1), cv(0, op(1).w));
            if (z.conc() ? z.c != 0 : decide(s, z.e)) fail(s, "ub", "", "division by zero");
            f->r[d.dst] = binop(d.op, op(0), op(1));
            return;
        }
        case Instruction::ICmp: f->r[d.dst] = icmp(d.pred, op(0), op(1)); return;
        case Instruction::Select:
        {
            const Val& c = op(0);
            if (resolveSelects && !c.conc())
            {
                // keep only the operand this path selects, if the path fixes it
                bool now1 = pool.eval(c.e, s.model) != 0;
                if (maySat(s, now1 ? pool.mnot(c.e) : c.e, nullptr) == 0) { f->r[d.dst] = now1 ? op(1) : op(2); return; }
            }
            f->r[d.dst] = vite(op(0), op(1), op(2));
            return;
        }
        case Instruction::ZExt: f->r[d.dst] = vzext(op(0), d.w); return;
        case Instruction::SExt: f->r[d.dst] = vsext(op(0), d.w); return;
        case Instruction::Trunc: f->r[d.dst] = vtrunc(op(0), d.w); return;
        case Instruction::PtrToInt: case Instruction::IntToPtr:
        {
            const Val& a = op(0);
            f->r[d.dst] = d.w == a.w ? a : d.w > a.w ? vzext(a, d.w) : vtrunc(a, d.w);
            return;
        }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: f->r[d.dst] = op(0); return;
        case Instruction::GetElementPtr:
        {
            Val p = op(0);
            if (d.constOff) p = kbin(K_ADD, p, cv((u128)(i128)d.constOff, 64));
            for (auto& sc : d.scaled)
            {
                Val i = op(sc.first);
                if (i.w != 64) i = i.w < 64 ? vsext(i, 64) : vtrunc(i, 64);
                if (sc.second != 1) i = kbin(K_MUL, i, cv(sc.second, 64));
                p = kbin(K_ADD, p, i);
            }
            f->r[d.dst] = std::move(p);
            return;
        }
        case Instruction::Alloca:
        {
            u128 n = concretize(s, op(0));
            uint64_t id = newObj(s.mem, d.bytes * (uint64_t)n, "local", true);
            s.mem.own(id)->isStack = true;
            f->allocas.push_back(id);
            f->r[d.dst] = cv(baseOf(id), 64);
            return;
        }
        case Instruction::Load:
        {
            uint64_t p = resolve(s, op(0), d.bytes, false);
            f->r[d.dst] = d.w ? loadInt(s, p, d.bytes, d.w) : loadTy(s, p, d.ty);
            return;
        }
        case Instruction::Store:
        {
            uint64_t p = resolve(s, op(1), d.bytes, true);
            storeTy(s, p, d.ty, op(0));
            return;
        }
        case Instruction::Br:
            if (d.t1 < 0) { jump(s, *f, d.t0); return; }
            else
            {
                const Val& c = op(0);
                bool t = c.conc() ? c.c != 0 : decide(s, c.e);
                jump(s, *f, t ? d.t0 : d.t1);
                return;
            }
        case Instruction::Switch:
        {
            Val c = op(0);
            for (auto& cs : d.cases)
            {
                Val q = kbin(K_EQ, c, cv(cs.first, c.w));
                if (q.conc() ? q.c != 0 : decide(s, q.e)) { jump(s, *f, cs.second); return; }
            }
            jump(s, *f, d.t0);
            return;
        }
        case Instruction::ExtractValue:
        {
            const Val* p = &op(0);
            for (unsigned i : d.idxs) p = &p->agg->v[i];
            Val v = *p;
            f->r[d.dst] = v;
            return;
        }
        case Instruction::InsertValue:
        {
            Val v = op(0);
            Val x = op(1);
            insertAt(v, d.idxs, 0, x);
            f->r[d.dst] = v;
            return;
        }
        case Instruction::Ret:
        {
            Val v;
            bool has = !d.ops.empty();
            if (has) v = op(0);
            int dst = f->retDst;
            popFrame(s);
            if (s.fr.empty()) { finishPath(s, "end"); throw PathEnd{"end"}; }
            if (dst >= 0 && has) s.fr.back().own()->r[dst] = std::move(v);
            return;
        }
        case Instruction::Unreachable: fail(s, "ub", "", "reached unreachable code");
        case Instruction::Call:
        {
            vector<Val> args;
            size_t na = d.byval.size();
            args.reserve(na);
            for (size_t i = 0; i < na; i++) args.push_back(op(i));
            Function* cf = d.extf;
            if (d.iid) { intrinsic(s, *f, d, args); return; }
            if (!cf)
            {
                uint64_t p = (uint64_t)concretize(s, op(na));
                auto it = faddr.find(p);
                if (it == faddr.end()) fail(s, "memory", "", "call through invalid function pointer");
                cf = it->second;
            }
            if (cf->isDeclaration())
            {
                if (!d.extf) unsupported("indirect external call");
                external(s, *f, d, args);
                return;
            }
            if (cf->getName() == "__clang_call_terminate") abortPath(s, "terminate");
            for (size_t i = 0; i < na; i++)
                if (d.byval[i])
                {
                    uint64_t id = newObj(s.mem, d.byval[i], "byval", true);
                    f->allocas.push_back(id);
                    copyBytes(s, baseOf(id), (uint64_t)concretize(s, args[i]), d.byval[i]);
                    args[i] = cv(baseOf(id), 64);
                }
            pushFrame(s, getFn(cf), args, d.dst);
            return;
        }
        default: unsupported(string("instruction ") + d.I->getOpcodeName());
        }
    }
    void insertAt(Val& v, const vector<unsigned>& idx, size_t k, const Val& x)
    {
        if (k == idx.size()) { v = x; return; }
        Agg* a = v.agg.own();
        insertAt(a->v[idx[k]], idx, k + 1, x);
    }
    // pointer to concrete address; a symbolic pointer must stay inside the object it was derived from
    uint64_t resolve(State& s, const Val& p, uint64_t n, bool write)
    {
        if (p.conc()) return (uint64_t)p.c;
        // structural base
        Expr* e = p.e;
        uint64_t base = 0;
        std::function<void(Expr*)> find = [&](Expr* x)
        {
            if (x->k == K_CONST) { if ((uint64_t)x->v >> 32 && s.mem.get((uint64_t)x->v >> 32) && !base) base = (uint64_t)x->v; }
            else if (x->k == K_ADD) { find(x->a); find(x->b); }
        };
        find(e);
        if (base)
        {
            uint64_t id = base >> 32;
            MemObj* o = s.mem.get(id);
            // in bounds for all values?
            if (n <= o->size)
            {
                Expr* off = pool.bin(K_SUB, e, pool.cst(baseOf(id), 64));
                Expr* ok = pool.bin(K_ULE, off, pool.cst(o->size - n, 64));
                if (!pool.isTrue(ok) && !decide(s, ok))
                {
                    uint64_t a = (uint64_t)pool.eval(e, s.model);
                    fail(s, "memory", "", string(write ? "write" : "read") + " at symbolic offset out of bounds of " + o->what + " (size " + std::to_string(o->size) + ", e.g. offset " + std::to_string((int64_t)(a - baseOf(id))) + ")");
                }
            }
        }
        return (uint64_t)concretize(s, p);
    }

    void runState(State* sp)
    {
        State& s = *sp;
        try
        {
            while (true)
            {
                if (s.insts > maxInst)
                {
                    nMaxInst++;
                    fail(s, "nontermination", "instruction-limit", "path exceeds " + std::to_string(maxInst) + " instructions");
                }
                step(s);
                if ((nInst & 0xffff) == 0 && now() - t0 > timeLimit) { incomplete = true; incompleteWhy = "time limit"; break; }
            }
        }
        catch (PathEnd& e)
        {
            if (!strcmp(e.why, "assume")) nDropped++;
        }
        delete sp;
    }
    void run(Function* F)
    {
        t0 = now();
        State* s = new State;
        s->mem = initMem;
        vector<Val> args;
        try { pushFrame(*s, getFn(F), args, -1); }
        catch (PathEnd&) { incomplete = true; return; }
        work.push_back(s);
        while (!work.empty())
        {
            if (now() - t0 > timeLimit) { incomplete = true; incompleteWhy = "time limit"; break; }
            if ((int)viols.size() >= maxViol) break;
            State* x = work.back();
            work.pop_back();
            runState(x);
        }
    }

    // ---------------------------------------------------------------- output
    static string jesc(const string& s)
    {
        string r = "\"";
        for (char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    static string hex(u128 v)
    {
        char b[40];
        if (v >> 64) snprintf(b, 40, "\"%llx%016llx\"", (unsigned long long)(v >> 64), (unsigned long long)v);
        else snprintf(b, 40, "\"%llx\"", (unsigned long long)v);
        return b;
    }
    void collectCovers(Function* F)
    {
        // cover ids appearing in functions reachable by direct calls
        std::set<Function*> seen;
        vector<Function*> st{F};
        while (!st.empty())
        {
            Function* f = st.back();
            st.pop_back();
            if (!seen.insert(f).second) continue;
            for (auto& B : *f)
                for (auto& I : B)
                    if (auto* cb = dyn_cast<CallBase>(&I))
                        if (Function* c = cb->getCalledFunction())
                        {
                            if (c->getName() == "vf_cover")
                            {
                                if (auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()))
                                    if (gv->hasInitializer())
                                        if (auto* ca = dyn_cast<ConstantDataArray>(gv->getInitializer())) declaredCovers.insert(ca->getAsCString().str());
                            }
                            else if (!c->isDeclaration()) st.push_back(c);
                        }
        }
    }
    void output(const string& path, const string& entry)
    {
        std::ofstream o(path);
        std::set<string> funcs;
        std::set<std::pair<string, unsigned>> lines;
        for (auto& kv : fns)
            for (auto& b : kv.second->blocks)
                for (auto& d : b.ins)
                {
                    if (!d.covered) continue;
                    const DILocation* L = d.I->getDebugLoc().get();
                    while (L)
                    {
                        string fn = L->getFilename().str();
                        auto p = fn.find("fixed_containers/");
                        if (p != string::npos)
                        {
                            fn = fn.substr(p + 17);
                            auto* sp = L->getScope()->getSubprogram();
                            funcs.insert(fn + ":" + sp->getName().str() + ":" + std::to_string(sp->getLine()));
                            if (L->getLine()) lines.insert({fn, L->getLine()});
                        }
                        L = L->getInlinedAt();
                    }
                }
        struct rusage ru;
        getrusage(RUSAGE_SELF, &ru);
        o << "{\"entry\":" << jesc(entry) << ",\"complete\":" << (incomplete ? "false" : "true") << ",\"why\":" << jesc(incompleteWhy)
          << ",\"paths\":" << nPaths << ",\"infeasible_assume\":" << nDropped << ",\"forks\":" << nForks << ",\"instructions\":" << nInst
          << ",\"queries\":" << nQueries << ",\"cache_hits\":" << nCacheHit << ",\"core_hits\":" << nCoreHit << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnknown
          << ",\"checks\":" << nChecks << ",\"checks_by_solver\":" << nChecksSolver << ",\"expected_aborts\":" << nExpectedAborts
          << ",\"solver_s\":" << solverTime << ",\"max_query_s\":" << maxQuery << ",\"wall_s\":" << (now() - t0) << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024
          << ",\"exprs\":" << pool.arena.size();
        o << ",\"covers\":{";
        bool first = true;
        for (auto& d : declaredCovers) { if (!covers.count(d)) covers[d] = 0; }
        for (auto& c : covers) { o << (first ? "" : ",") << jesc(c.first) << ":" << c.second; first = false; }
        o << "},\"check_ids\":{";
        first = true;
        for (auto& c : checkIds) { o << (first ? "" : ",") << jesc(c.first) << ":" << c.second; first = false; }
        o << "},\"functions\":[";
        first = true;
        for (auto& x : funcs) { o << (first ? "" : ",") << jesc(x); first = false; }
        o << "],\"lines\":[";
        first = true;
        for (auto& x : lines) { o << (first ? "" : ",") << jesc(x.first + ":" + std::to_string(x.second)); first = false; }
        auto ins = [&](const vector<std::pair<unsigned, u128>>& in)
        {
            o << "[";
            for (size_t i = 0; i < in.size(); i++) o << (i ? "," : "") << hex(in[i].second);
            o << "]";
        };
        o << "],\"violations\":[";
        for (size_t i = 0; i < viols.size(); i++)
        {
            auto& v = viols[i];
            o << (i ? "," : "") << "{\"kind\":" << jesc(v.kind) << ",\"id\":" << jesc(v.id) << ",\"msg\":" << jesc(v.msg) << ",\"where\":" << jesc(v.where) << ",\"inputs\":";
            ins(v.inputs);
            o << "}";
        }
        o << "],\"samples\":[";
        for (size_t i = 0; i < sampleList.size(); i++)
        {
            auto& v = sampleList[i];
            o << (i ? "," : "") << "{\"end\":" << jesc(v.end) << ",\"inputs\":";
            ins(v.in);
            o << ",\"observed\":[";
            for (size_t k = 0; k < v.obs.size(); k++) o << (k ? "," : "") << hex(v.obs[k]);
            o << "]}";
        }
        o << "]}\n";
    }
};

int main(int argc, char** argv)
{
    string mod, entry, out = "/dev/stdout";
    bool list = false;
    auto* E = new Engine;
    for (int i = 1; i < argc; i++)
    {
        string a = argv[i];
        if (a == "--list") list = true;
        else if (a == "--entry") entry = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--time-limit") E->timeLimit = atof(argv[++i]);
        else if (a == "--query-timeout") E->queryTimeout = atof(argv[++i]);
        else if (a == "--max-inst") E->maxInst = strtoull(argv[++i], 0, 10);
        else if (a == "--max-violations") E->maxViol = atoi(argv[++i]);
        else if (a == "--resolve-selects") E->resolveSelects = true;
        else if (a == "--samples") E->samples = atoi(argv[++i]);
        else if (a == "-v") E->verbose = true;
        else mod = a;
    }
    SMDiagnostic err;
    E->M = parseIRFile(mod, err, E->ctx);
    if (!E->M) { err.print("vfx", errs()); return 2; }
    E->DL = &E->M->getDataLayout();
    if (list)
    {
        for (auto& F : *E->M)
            if (!F.isDeclaration() && F.getName().starts_with("vf_entry_")) printf("%s\n", F.getName().str().c_str());
        return 0;
    }
    E->initZ3();
    E->setupGlobals();
    Function* F = E->M->getFunction(entry);
    if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    E->collectCovers(F);
    E->run(F);
    E->output(out, entry);
    fflush(nullptr);
    _exit(0);
}
