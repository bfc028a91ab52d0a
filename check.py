#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--only HARNESS]

Regenerates LLVM IR of the harnesses harness/ID_*.cpp (which include /repo/strictpp) from /repo's current tree, explores
every harness with the symbolic executor build/symx, replays each counterexample against the native build, validates
sampled path witnesses against the native build, writes evidence/ID.json.
Exit 0: held on everything explored. 1: VIOLATION. 2: no answer.
"""
import concurrent.futures as cf, glob, json, os, re, subprocess, sys, time, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("STRICTPP_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CLANG, OPT, GXX = "/usr/bin/clang++-18", "/usr/bin/opt-18", "/usr/bin/g++"
NCPU = os.cpu_count() or 4
BASE = ["-std=c++20", "-DSTRICT_REMOVE_NODISCARD", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-ffp-contract=off"]
CONFIGS = {
    "debug": ["-DSTRICT_ERROR_EXCEPTIONS"],
    "release": ["-DSTRICT_ERROR_EXCEPTIONS", "-DSTRICT_DEBUG_OFF"],
    "assert": [],  # assertions instead of exceptions
}
T0 = time.time()
# Everything must end well before the 900 s that a check gets.
DEADLINE = {"quick": 780, "thorough": 20000}
HARNESS_TIME = {"quick": 300, "thorough": 6000}


def run(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace"), "timeout"


def build_symx():
    rc, out, err = run(["make", "-s", "-j4", "-C", os.path.join(ROOT, "symx"), "B=" + BUILD], timeout=600)
    if rc:
        print(out + err)
        print("ERROR: the symbolic executor does not build")
        sys.exit(2)


class Unit:
    """One harness source in one configuration."""

    def __init__(self, src, config, work, tier):
        self.src, self.config, self.work, self.tier = src, config, work, tier
        self.name = os.path.splitext(os.path.basename(src))[0] + "." + config
        self.text = open(src).read()
        self.err = None
        self.native = {}
        m = re.search(r"^//! defs: (.*)$", self.text, re.M)
        self.defs = m.group(1).split() if m else []
        m = re.search(r"^//! query-ms: (.*)$", self.text, re.M)
        self.query_ms = m.group(1).strip() if m else None
        m = re.search(r"^//! branch-ms: (.*)$", self.text, re.M)
        self.branch_ms = m.group(1).strip() if m else None
        if tier == "thorough":
            self.defs.append("-DTHOROUGH")

    def harnesses(self):
        t = re.sub(r"//.*", "", self.text)
        hs = re.findall(r"^HARNESS\((\w+)\)", t, re.M)
        if self.tier == "thorough":
            hs += re.findall(r"^HARNESS_T\((\w+)\)", t, re.M)
        return hs

    def messages(self):
        t = re.sub(r"//.*", "", self.text)
        ms = set(re.findall(r'CHECK\((?:[^"]|\n)*?"([^"\n]+)"\s*\)', t))
        return {m for m in ms if not m.startswith("~")}

    def flags(self):
        return BASE + CONFIGS[self.config] + self.defs + ["-I" + REPO, "-I" + os.path.join(ROOT, "harness")]

    def compile_ir(self):
        ll0 = os.path.join(self.work, self.name + ".0.ll")
        self.ll = os.path.join(self.work, self.name + ".ll")
        rc, out, err = run([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", *self.flags(), "-S", "-emit-llvm", self.src, "-o", ll0], timeout=300)
        if rc:
            self.err = "IR of %s: %s" % (self.name, (err or out)[:3000])
            return
        rc, out, err = run([OPT, "-passes=function(mem2reg,instsimplify,simplifycfg)", "-S", ll0, "-o", self.ll], timeout=300)
        if rc:
            self.err = "opt of %s: %s" % (self.name, (err or out)[:3000])
            return
        os.unlink(ll0)

    def compile_native(self, kind):
        """kind: plain (validation of sampled paths), asan (replay), clang (second replay build)"""
        if kind in self.native:
            return self.native[kind]
        exe = os.path.join(self.work, self.name + "." + kind)
        rt = os.path.join(ROOT, "harness", "replay_rt.cpp")
        san = {"plain": [GXX, "-O0"],
               "asan": [GXX, "-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,float-cast-overflow,vptr",
                        "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
               "opt": [GXX, "-O2", "-fsanitize=address"],
               "clang": [CLANG, "-O1", "-g1", "-fsanitize=address", "-ftrivial-auto-var-init=pattern"]}[kind]
        rc, out, err = run(san + ["-DSYM_REPLAY", *self.flags(), self.src, rt, "-o", exe], timeout=400)
        self.native[kind] = exe if rc == 0 else None
        if rc:
            sys.stderr.write("native build %s of %s failed: %s\n" % (kind, self.name, err[:1500]))
        return self.native[kind]

    def replay(self, cex, msg=""):
        """Returns (reproduced, text). A run of 40 s is one that does not end (the paths explored take milliseconds)."""
        text = ""
        endless = "does not end" in msg
        for kind in ("asan", "clang", "opt"):
            exe = self.compile_native(kind)
            if not exe:
                continue
            for fill in ("0xbe", "0x00", "0xff"):
                env = dict(os.environ)
                env["REPLAY_FILL"] = fill
                env["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=1:alloc_dealloc_mismatch=0:exitcode=1:abort_on_error=0"
                env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=1"
                rc, out, err = run([exe, cex], timeout=40, env=env)
                if rc == -9 and err == "timeout":
                    if endless:
                        return True, text + "[%s] still running after 40 s" % kind
                    return False, text + "[%s] timeout" % kind
                text += "[%s fill=%s] exit %s: %s\n" % (kind, fill, rc, err.strip()[:1500])
                if rc == 1 or rc < 0 or "ERROR: AddressSanitizer" in err or "runtime error" in err:
                    return True, text
                if rc in (3, 4):
                    break
        return False, text


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build_symx()
    work = os.path.join(BUILD, "work", prop + "-" + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    units = []
    for src in sorted(glob.glob(os.path.join(ROOT, "harness", prop + "_*.cpp")) + glob.glob(os.path.join(ROOT, "harness", prop + ".cpp"))):
        text = open(src).read()
        m = re.search(r"^//! configs: (.*)$", text, re.M)
        for c in (m.group(1).split() if m else ["debug"]):
            units.append(Unit(src, c, work, tier))
    if not units:
        print("ERROR: no harness for " + prop)
        return 2
    ex = cf.ThreadPoolExecutor(NCPU)
    list(ex.map(lambda u: u.compile_ir(), units))
    errors = [u.err for u in units if u.err]
    jobs = []
    for u in units:
        if u.err:
            continue
        for h in u.harnesses():
            if only and h != only:
                continue
            jobs.append((u, h))
    natives = {}
    deadline = T0 + DEADLINE[tier]
    results = {}

    def explore(job):
        u, h = job
        out = os.path.join(work, u.name + "." + h + ".json")
        left = deadline - time.time() - 30
        if left < 5:
            return job, {"harness": h, "problems": ["no time left"], "violations": [], "complete": False}
        t = min(left, HARNESS_TIME[tier])
        cmd = [os.path.join(BUILD, "symx"), u.ll, "--harness", h, "--out", out, "--cex", os.path.join(work, u.name + "." + h), "--time", str(int(t)),
               "--samples", "6" if tier == "quick" else "14"]
        if tier == "thorough":
            cmd += ["--max-paths", "3000000", "--query-ms", "600000"]
        elif u.query_ms:
            cmd += ["--query-ms", u.query_ms]
        if u.branch_ms:
            cmd += ["--branch-ms", u.branch_ms]
        # The other harnesses end soon after one has found a violation.
        stop = os.path.join(work, "stop")
        if tier == "quick":
            cmd += ["--stop", stop]
        rc, o, e = run(cmd, timeout=left + 20)
        try:
            r = json.load(open(out))
            if r["violations"] and not os.path.exists(stop):
                open(stop, "w").close()
            return job, r
        except Exception:
            return job, {"harness": h, "problems": ["symx ended with %s: %s" % (rc, (o + e)[-600:])], "violations": [], "complete": False}

    nat = [ex.submit(u.compile_native, "plain") for u in units if not u.err] if not only else []
    futs = [ex.submit(explore, j) for j in jobs]
    for f in futs:
        j, r = f.result()
        results[j] = r
    for f in nat:
        f.result()

    known = []
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k.get("status") == "known" and k["property"] == prop]

    nviol, spurious, problems = 0, [], list(errors)
    known_hit = set()
    for (u, h), r in sorted(results.items(), key=lambda x: (x[0][0].name, x[0][1])):
        for p in r["problems"]:
            problems.append("%s %s: %s" % (u.name, h, p))
        for v in r["violations"]:
            ok, text = u.replay(v["file"], v["msg"])
            if not ok:
                spurious.append("%s %s: %s does not reproduce natively (%s)\n%s" % (u.name, h, v["msg"], v["file"], text))
                continue
            k = [x for x in known if x["harness"] == h and x["check"] == v["msg"]]
            if k:
                if (h, v["msg"]) not in known_hit:
                    print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
                known_hit.add((h, v["msg"]))
                continue
            rep = os.path.join(BUILD, "replay", prop)
            os.makedirs(rep, exist_ok=True)
            dst = os.path.join(rep, os.path.basename(v["file"]))
            shutil.copy(v["file"], dst)
            nviol += 1
            print("violated: %s in harness %s (%s)\n  at %s\n  native replay: %s" % (v["msg"], h, u.name, v["where"], text.strip()[-900:]))
            print("VIOLATION property=%s replay=%s" % (prop, dst))

    # Vacuity: every harness returned on some path, every check of the sources was reached.
    if not only:
        for u in units:
            if u.err:
                continue
            rs = [results[(u, h)] for h in u.harnesses()]
            seen = set()
            for r in rs:
                seen |= set(r.get("sites", {}))
                if not r.get("sites"):
                    problems.append("%s %s reached no check" % (u.name, r["harness"]))
                elif not (r.get("ends", {}).get("returned") or r.get("ends", {}).get("abort")):
                    if not r["violations"]:
                        problems.append("%s %s returned on no path" % (u.name, r["harness"]))
            if nviol == 0 and u.config != "release":
                for m in sorted(u.messages() - seen):
                    problems.append("%s: check never reached: %s" % (u.name, m))

    # Validation of the encoding: sampled path witnesses through the native build.
    validated, diverged = 0, []
    if not only and nviol == 0:
        todo = []
        for u in units:
            if u.err or not u.native.get("plain"):
                if not u.err:
                    problems.append("no native build of " + u.name)
                continue
            for h in u.harnesses():
                for f in sorted(glob.glob(os.path.join(work, u.name + "." + h + ".s*.in"))):
                    todo.append((u, h, f))

        def val(t):
            u, h, f = t
            rc, o, e = run([u.native["plain"], f, "--validate"], timeout=60)
            return t, rc, e
        for t, rc, e in ex.map(val, todo):
            if rc == 0:
                validated += 1
            elif not results[(t[0], t[1])]["violations"]:
                diverged.append("%s: native run of %s: exit %s %s" % (t[0].name, t[2], rc, e.strip()[-300:]))
    problems += diverged

    S = {k: sum(r.get("solver", {}).get(k, 0) for r in results.values()) for k in ("queries", "sat", "unsat", "unknown", "model_hits", "cache_hits", "cvc5", "time_s")}
    tot = lambda k: sum(r.get(k, 0) for r in results.values())
    fns = sorted(set(f for r in results.values() for f in r.get("functions", [])))
    samples = []
    for (u, h), r in results.items():
        for s in r.get("samples", [])[:1]:
            samples.append(h + ": " + s[:700])
    sites = {}
    for (u, h), r in results.items():
        for m, s in r.get("sites", {}).items():
            d = sites.setdefault(m, {"reached": 0, "by_solver": 0, "by_rewriting": 0})
            d["reached"] += s["reached"]
            d["by_solver"] += s["solver"]
            d["by_rewriting"] += s["concrete"]
    bounds = []
    for u in units:
        for m in re.findall(r"^//! bounds: (.*)$", u.text, re.M):
            if m not in bounds:
                bounds.append(m)
    assumptions = ["signed overflow wraps; IEEE-754 binary64/binary32 round-to-nearest; allocations above 8192 bytes fail with bad_alloc",
                   "clang 18 front end at -O1 without passes, then mem2reg, instsimplify, simplifycfg; the library is built with -DSTRICT_ERROR_EXCEPTIONS unless a harness says otherwise"]
    for u in units:
        for m in re.findall(r"^//! assumes: (.*)$", u.text, re.M):
            if m not in assumptions:
                assumptions.append(m)
    wall = round(time.time() - T0, 2)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "exhaustive": all(r.get("complete") for r in results.values()),
            "harnesses": len(results), "decisions": tot("decisions"), "checks_reached": tot("checks"),
            "check_queries": tot("check_queries"), "memory_queries": tot("memory_queries"),
            "queries": S["queries"], "queries_sat": S["sat"], "queries_unsat": S["unsat"], "queries_unknown": S["unknown"],
            "answers_from_models": S["model_hits"], "answers_from_cache": S["cache_hits"], "queries_cvc5": S["cvc5"],
            "solver_time_s": round(S["time_s"], 2),
            "bounds": bounds, "functions_encoded": len(fns), "functions": fns[:400], "check_sites": sites,
            "explanation": "states: feasible paths explored to their end with symbolic data; transitions: IR instructions executed symbolically; "
                           "traces validated: witnesses of sampled paths whose native run passed the same sequence of checks",
        },
        "assumptions": assumptions, "wall_s": wall, "violations": nviol,
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d harnesses, %d paths, %d instructions, %d queries (%.1f s solver), %d validated, %.1f s" % (
        prop, tier, len(results), tot("paths"), tot("instructions"), S["queries"], S["time_s"], validated, wall))
    if nviol:
        return 1
    if spurious or problems:
        for p in spurious[:10] + problems[:20]:
            print("PROBLEM: " + p[:1500])
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
