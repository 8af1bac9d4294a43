#!/usr/bin/env python3
"""Driver of the solver-based checks.

  run.py setup                         build the symbolic executor (engine/) into build/
  run.py check PID [--tier quick|thorough] [--entry SUBSTR] [-v]
  run.py replay FILE                   run a recorded counterexample against the real code, natively
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(V, "build")
CXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
OPT = "/usr/bin/opt-18" if os.path.exists("/usr/bin/opt-18") else "opt"
JOBS = int(os.environ.get("VF_JOBS", os.cpu_count() or 8))

SAN = "signed-integer-overflow,shift,integer-divide-by-zero,array-bounds,bool,enum,unreachable,return,pointer-overflow"
BASE = ["-std=c++20", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/include", "-I" + V + "/harness", "-w",
        "-fbracket-depth=2048", "-ftemplate-depth=2048"]
BC_FLAGS = BASE + ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-gline-tables-only",
                   "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize=" + SAN, "-fsanitize-trap=all", "-emit-llvm", "-c"]
PASSES = ("function(sroa,early-cse,instsimplify,simplifycfg),cgscc(inline),"
          "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,adce),globaldce")
NATIVE = {
    "asan": BASE + ["-O1", "-g1", "-DVF_NATIVE", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                    "-fno-sanitize=vptr", "-rdynamic"],
    "msan": BASE + ["-O1", "-g1", "-DVF_NATIVE", "-DVF_NO_NEW", "-fsanitize=memory", "-fno-sanitize-recover=all", "-rdynamic"],
    "plain": BASE + ["-O1", "-g1", "-DVF_NATIVE", "-rdynamic"],
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=44",
           UBSAN_OPTIONS="print_stacktrace=0:exitcode=44:abort_on_error=0", MSAN_OPTIONS="exitcode=44:handle_abort=0:abort_on_error=0")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    srcs = [os.path.join(V, "engine", f) for f in ("vfx.cpp", "expr.h")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest()[:16]
    exe = os.path.join(BUILD, "vfx-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    lc = "/usr/bin/llvm-config-18" if os.path.exists("/usr/bin/llvm-config-18") else "llvm-config"
    inc = sh([lc, "--includedir"]).stdout.strip()
    lib = sh([lc, "--libdir"]).stdout.strip()
    tmp = exe + ".%d" % os.getpid()
    r = sh([CXX, "-std=c++17", "-O2", "-w", "-fno-rtti", "-fexceptions", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
            "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I" + inc, srcs[0], "-o", tmp, "-L" + lib, "-lLLVM-18", "-lz3"])
    if r.returncode:
        raise BuildError("engine: " + r.stdout[-3000:])
    os.rename(tmp, exe)
    return exe


def harness_files(pid):
    return sorted(glob.glob(os.path.join(V, "harness", pid + "_*.cpp")))


def defs(tier):
    return ["-DVF_DEEP"] if tier == "thorough" else []


def build_bc(src, out, tier):
    raw = out + ".raw.bc"
    r = sh([CXX] + BC_FLAGS + defs(tier) + [src, "-o", raw])
    if r.returncode:
        raise BuildError(os.path.basename(src) + ": " + r.stdout[:4000])
    r = sh([OPT, "-passes=" + PASSES, raw, "-o", out])
    if r.returncode:
        raise BuildError("opt: " + r.stdout[-3000:])
    os.unlink(raw)
    return out


def build_native(src, out, kind, tier):
    r = sh([CXX] + NATIVE[kind] + defs(tier) + [src, os.path.join(V, "harness", "native_rt.cpp"), "-o", out, "-ldl"])
    if r.returncode:
        raise BuildError("native " + os.path.basename(src) + ": " + r.stdout[:4000])
    return out


BAD = {42: "check failed", 43: "unexpected abort", 44: "crash or sanitizer report", 45: "does not terminate"}


def native_batch(exe, items, timeout=600):
    """items: list of (entry, [hex]) -> list of (code, 'END..' line)"""
    inp = "".join("%s %s\n" % (e, " ".join(i)) for e, i in items)
    r = subprocess.run([exe, "--batch"], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=timeout,
                       errors="replace")
    res, last = [], ""
    for line in r.stdout.split("\n"):
        if line.startswith("RESULT "):
            res.append((int(line.split()[1]), last))
            last = ""
        elif line:
            last = line
    return res, r.stderr


def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def props():
    return {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()}


def meta_comments(files):
    m = {"BOUNDS": [], "OUTSIDE": [], "ASSUME": []}
    for f in files:
        for line in open(f):
            g = re.match(r"//\s*(BOUNDS|OUTSIDE|ASSUME):\s*(.*)", line)
            if g:
                m[g.group(1)].append(g.group(2).strip())
    return m


def check(pid, tier, only=None, verbose=False):
    t0 = time.time()
    files = harness_files(pid)
    if not files:
        print("no harness for", pid)
        return 3
    work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return check_in(pid, tier, only, verbose, t0, files, work)
    except BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(pid, tier, only, verbose, t0, files, work):
    budget = float(os.environ.get("VF_BUDGET", "780" if tier == "quick" else "5400"))
    deadline = t0 + budget
    pool = ThreadPoolExecutor(JOBS)
    fe = pool.submit(build_engine)
    stem = lambda f: os.path.basename(f)[:-4]
    fb = {f: pool.submit(build_bc, f, os.path.join(work, stem(f) + ".bc"), tier) for f in files}
    fn = {f: pool.submit(build_native, f, os.path.join(work, stem(f) + ".asan"), "asan", tier) for f in files}
    exe = fe.result()
    jobs = []
    unbuilt = []
    for f in files:
        try:
            bc = fb[f].result()
            fn[f].result()
        except BuildError as e:
            # the rest of the property is still decided; nothing at all built is a build error of the whole check
            unbuilt.append((f, str(e)))
            continue
        r = sh([exe, "--list", bc])
        for e in r.stdout.split():
            if e.startswith("vf_entry_t_") and tier != "thorough":
                continue
            if only and only not in e:
                continue
            jobs.append((f, bc, e))
    if len(unbuilt) == len(files):
        raise BuildError(unbuilt[0][1])
    t_build = time.time() - t0

    # longest first: an entry may carry a weight suffix __wN
    def weight(e):
        g = re.search(r"__w(\d+)$", e)
        return int(g.group(1)) if g else 1
    jobs.sort(key=lambda j: -weight(j[2]))

    def run_entry(job):
        f, bc, e = job
        out = os.path.join(work, e + ".json")
        left = deadline - time.time() - 25
        if left < 5:
            return (job, None, "not started: time budget used up")
        cmd = [exe, bc, "--entry", e, "--out", out, "--time-limit", "%.0f" % left, "--query-timeout", "120" if tier == "quick" else "600",
               "--max-inst", "400000000" if "huge" in e else "20000000", "--max-violations", "4", "--samples", "12", "--resolve-selects"]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 150)
        except subprocess.TimeoutExpired:
            return (job, None, "engine time-out")
        if p.returncode or not os.path.exists(out):
            return (job, None, "engine error %s: %s" % (p.returncode, p.stdout[-500:]))
        return (job, json.load(open(out)), "")

    results = list(pool.map(run_entry, jobs))
    rc = 0
    violations, incon, covers = [], [], {}
    for f, e in unbuilt:
        first = next((l for l in e.splitlines() if "error:" in l), e.splitlines()[0] if e else "")
        incon.append("%s does not build against this tree, its entries were not explored: %s" % (stem(f), first[:300]))
    for (f, bc, e), r, err in results:
        if r is None:
            incon.append("%s: %s" % (e, err))
            continue
        if verbose:
            print("%-46s paths=%-7d q=%-7d solver=%-7.2f wall=%-7.2f checks=%-7d %s" % (e, r["paths"], r["queries"], r["solver_s"], r["wall_s"], r["checks"],
                  "" if r["complete"] else "INCOMPLETE " + r["why"]))
        if not r["complete"]:
            incon.append("%s: %s" % (e, r["why"]))
        for v in r["violations"]:
            violations.append((f, e, v))
        for c, n in r["covers"].items():
            covers[c] = covers.get(c, 0) + n
    if not only and not violations:
        text = "".join(open(h).read() for h in harness_files(pid))
        own = "// COVER: own" in text  # only the labels in the harness itself; shared headers hold more operations than it uses
        incon += ["cover '%s' not reached (vacuity guard)" % c for c in sorted(covers)
                  if covers[c] == 0 and not (own and '"%s"' % c not in text)]
    # native validation of path witnesses
    validated, mismatches = 0, []
    byfile = {}
    for (f, bc, e), r, err in results:
        if r:
            for s in r["samples"]:
                byfile.setdefault(f, []).append((e, s))
    for f, lst in byfile.items():
        exe_n = fn[f].result()
        res, stderr = native_batch(exe_n, [(e, s["inputs"]) for e, s in lst])
        for (e, s), (code, line) in zip(lst, res):
            head, _, obs = line.partition("|")
            want = " ".join(s["observed"])
            if code == 0 and head.split()[:2] == ["END", s["end"]] and obs.strip() == want:
                validated += 1
            elif code in BAD:
                violations.append((f, e, {"kind": "native", "id": "native-" + (line.split()[1] if len(line.split()) > 1 and code == 42 else BAD[code].replace(" ", "-")),
                                          "msg": "path witness fails natively: %s %s" % (BAD[code], line), "where": "", "inputs": s["inputs"]}))
            else:
                mismatches.append("%s: inputs %s: native %s %r, engine %s %s" % (e, s["inputs"], code, line, s["end"], want))
        if len(res) != len(lst):
            mismatches.append("native batch of %s ended early: %s" % (stem(f), stderr[-300:]))
    # confirm counterexamples natively
    kf = known_findings()
    reported, unconfirmed, known = [], [], []
    rdir = os.path.join(V, "replays")
    for f, e, v in violations:
        k = next((x for x in kf["findings"] if x["property"] == pid and x["entry"] == e and x["id"] in (v["id"], v["kind"] + "@" + v["where"].split(" < ")[0])), None)
        confirmed, how = False, ""
        for kind in ("asan", "msan", "plain"):
            try:
                exe_n = fn[f].result() if kind == "asan" else os.path.join(work, stem(f) + "." + kind)
                if kind != "asan" and not os.path.exists(exe_n):
                    build_native(f, exe_n, kind, tier)
                res, stderr = native_batch(exe_n, [(e, v["inputs"])])
            except (BuildError, subprocess.TimeoutExpired) as ex:
                continue
            if res and res[0][0] in BAD:
                confirmed = True
                how = "%s: %s %s" % (kind, BAD[res[0][0]], res[0][1])
                m = re.search(r"(SUMMARY|runtime error|WARNING: MemorySanitizer)[^\n]*", stderr)
                if m:
                    how += " [" + m.group(0) + "]"
                break
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%s.json" % (pid, e, re.sub(r"[^A-Za-z0-9_.-]+", "_", v["id"] or v["kind"])[:60]))
        rec = {"property": pid, "harness": os.path.relpath(f, V), "tier": tier, "entry": e, "inputs": v["inputs"], "kind": v["kind"], "id": v["id"],
               "msg": v["msg"], "where": v["where"], "native": how,
               "cmd": "python3 run.py replay %s" % os.path.relpath(rp, V)}
        if not confirmed and v["kind"] == "nontermination":
            # it does end when run natively: long, not endless, so that path is merely unexplored
            incon.append("%s: %s, but ends natively" % (e, v["msg"]))
            continue
        if not confirmed:
            unconfirmed.append(rec)
            continue
        if k:
            known.append((k, rec))
            continue
        json.dump(rec, open(rp, "w"), indent=1)
        reported.append((rp, rec))
    seen = set()
    for k, rec in known:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for rp, rec in reported:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  entry=%s kind=%s id=%s inputs=%s\n  %s\n  at %s\n  native: %s" % (rec["entry"], rec["kind"], rec["id"], rec["inputs"], rec["msg"], rec["where"], rec["native"]))
    for rec in unconfirmed:
        print("UNCONFIRMED property=%s entry=%s kind=%s id=%s %s at %s inputs=%s" % (pid, rec["entry"], rec["kind"], rec["id"], rec["msg"], rec["where"], rec["inputs"]))
    for m in mismatches:
        print("ENCODING-MISMATCH property=%s %s" % (pid, m))
    for m in incon:
        print("INCOMPLETE property=%s %s" % (pid, m))
    if reported:
        rc = 1
    elif mismatches or unconfirmed:
        rc = 2
    ok = [r for _, r, _ in results if r]
    if not ok:
        rc = rc or 2
    tot = lambda k: sum(r[k] for r in ok)
    funcs, lines, ids = set(), set(), {}
    for r in ok:
        funcs.update(r["functions"])
        lines.update(r["lines"])
        for k2, n in r["check_ids"].items():
            ids[k2] = ids.get(k2, 0) + n
    mc = meta_comments(files)
    samples = []
    for r in ok[:6]:
        for s in r["samples"][:2]:
            samples.append({"entry": r["entry"], "inputs": s["inputs"], "observed": s["observed"][:12], "end": s["end"]})
    if not samples:
        samples = [{"entry": r["entry"]} for r in ok[:1]]
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated, "samples": samples,
            "technique": "symbolic execution of the LLVM IR that clang emits from /repo's current headers; Z3 (QF_BV) decides every branch and assertion",
            "bounds": mc["BOUNDS"], "outside_the_claim": mc["OUTSIDE"],
            "entries": [{"entry": r["entry"], "complete": r["complete"], "why": r["why"], "paths": r["paths"], "forks": r["forks"], "queries": r["queries"],
                         "sat": r["sat"], "unsat": r["unsat"], "unknown": r["unknown"], "cache_hits": r["cache_hits"] + r["core_hits"],
                         "assertions": r["checks"], "assertions_sent_to_solver": r["checks_by_solver"], "solver_s": round(r["solver_s"], 3),
                         "max_query_s": round(r["max_query_s"], 4), "wall_s": round(r["wall_s"], 3), "covers": {c: n for c, n in r["covers"].items() if n}} for r in ok],
            "solver_queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 3), "assertions_evaluated": tot("checks"), "assertion_ids": ids,
            "functions_encoded": sorted(funcs), "source_lines_encoded": len(lines), "incomplete": incon,
            "exhaustive": not incon and all(r["complete"] for r in ok), "build_s": round(t_build, 1),
        },
        "assumptions": mc["ASSUME"] + COMMON_ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    json.dump(sorted(lines), open(os.path.join(BUILD, "lines-" + pid + ".json"), "w"))
    print("%s %s: entries=%d paths=%d queries=%d (unsat %d) assertions=%d validated=%d solver=%.1fs wall=%.1fs %s" % (
        pid, tier, len(ok), tot("paths"), tot("queries"), tot("unsat"), tot("checks"), validated, tot("solver_s"), wall,
        "HOLDS within bounds" if rc == 0 and not incon else ("holds on everything explored (INCOMPLETE)" if rc == 0 else "rc=%d" % rc)))
    return rc


COMMON_ASSUMPTIONS = [
    "clang-18 front end, libstdc++ headers, x86-64 data layout; exceptions disabled (-fno-exceptions); run-time (not constant-evaluated) branch of the code",
    "the executor's model of LLVM IR and memory (objects are disjoint, pointers carry their object); sampled paths are replayed natively under ASan/UBSan and must agree",
    "Z3 4.8.12 is right about (un)satisfiability",
]


def replay(path):
    rec = json.load(open(path))
    work = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        src = os.path.join(V, rec["harness"])
        for kind in ("asan", "msan", "plain"):
            exe = build_native(src, os.path.join(work, kind), kind, rec["tier"])
            p = subprocess.run([exe, rec["entry"]] + rec["inputs"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            print("[%s] exit %d\n%s" % (kind, p.returncode, p.stdout[-2500:]))
            if p.returncode:
                return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["setup", "check", "replay"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.cmd == "setup":
        print(build_engine())
        return 0
    if a.cmd == "replay":
        return replay(a.arg)
    return check(a.arg, a.tier, a.entry, a.v)


if __name__ == "__main__":
    sys.exit(main())
