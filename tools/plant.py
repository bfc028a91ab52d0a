#!/usr/bin/env python3
"""Confirms planted bugs (tools/bugs.py) in a scratch copy and writes seeded/<id>/: plant.py [ID...] [--check]
A bug is kept if its patch applies, the tests pass with it, and its demo passes without and fails with it.
--check also runs the property's check against the patched copy and prints whether it is caught."""
import fcntl, json, os, shutil, subprocess, sys, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS

W = "/tmp/plant/repo"
DEMO_SH = '''#!/bin/bash
# Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
g++ -std=c++20 -O0 -w -DSTRICT_REMOVE_NODISCARD -DSTRICT_ERROR_EXCEPTIONS%s -I. "$here/demo.cpp" -o "$out/demo" && timeout 60 "$out/demo"
rc=$?
rm -f "$out/demo"
rmdir "$out"
exit $rc
'''
PRE = '''#include <strictpp/strict.hpp>
#include <cstdio>
#include <vector>
using namespace spp;
// Whether f throws.
template <class F> static bool throws(F f) {
   try { f(); } catch(...) { return true; }
   return false;
}
static int bad = 0;
#define OK(c) do { if(!(c)) { std::printf("failed: %s\\n", #c); bad = 1; } } while(0)

'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    os.makedirs("/tmp/plant", exist_ok=True)
    global LOCK
    LOCK = open("/tmp/plant/lock", "w")
    fcntl.flock(LOCK, fcntl.LOCK_EX)
    if not os.path.exists(W):
        sh(f"git -C /repo worktree prune; git clone -q /repo {W}")
    sh(f"git -C {W} fetch -q origin; git -C {W} reset -q --hard origin/HEAD; git -C {W} clean -qfd strictpp")
    h1, h2 = sh("git -C /repo rev-parse HEAD").stdout, sh(f"git -C {W} rev-parse HEAD").stdout
    assert h1 == h2, (h1, h2)
    return sh(f"export CC=/usr/bin/gcc CXX=/usr/bin/g++; cmake -S {W} -B {W}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DSTRICT_BUILD_TESTS=ON -DSTRICT_BUILD_EXAMPLES=ON -DSTRICT_BUILD_BENCHMARKS=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DFETCHCONTENT_FULLY_DISCONNECTED=ON")


def tests():
    r = sh(f"ninja -C {W}/_build && ctest --test-dir {W}/_build -j8 --timeout 300")
    return r.returncode == 0, r.stdout[-1500:]


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    prepare()
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        if not ids and not check and os.path.exists(d):
            continue
        sh(f"git -C {W} checkout -q -- .")
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(PRE + b.get("pre", "") + "int main() {\n" + b["demo"].strip("\n") + "\n   return bad;\n}\n")
        open(d + "/demo.sh", "w").write(DEMO_SH % "".join(" " + x for x in b.get("flags", [])))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        r = sh(f"bash {d}/demo.sh", cwd=W)
        if r.returncode:
            print(b["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:]); ok = False
        for f, old, new in b["edits"]:
            p = f"{W}/strictpp/{f}"
            s = open(p).read()
            n = s.count(old)
            k = b.get("occ", 1)
            if n < 1 or (n > 1 and "occ" not in b):
                print(b["id"], "EDIT MATCHES", n, repr(old[:60])); ok = False
                continue
            i = -1
            for _ in range(k):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
            open(p, "w").write(s)
        if ok:
            diff = sh(f"git -C {W} diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            t, out = tests()
            if not t:
                print(b["id"], "TESTS FAIL", out); ok = False
            r = sh(f"bash {d}/demo.sh", cwd=W)
            if r.returncode == 0:
                print(b["id"], "DEMO PASSES WITH BUG"); ok = False
        res = ""
        if ok and check:
            r = sh(f"STRICTPP_REPO={W} python3 {ROOT}/check.py {b['property']}")
            res = "caught" if r.returncode == 1 and f"VIOLATION property={b['property']} " in r.stdout else "MISSED rc=%d %s" % (r.returncode, r.stdout[-600:])
        print(b["id"], b["property"], "kept" if ok else "REJECTED", res, flush=True)
        if ok and check:
            c = dict(l.split() for l in open(ROOT + "/tools/caught.txt"))
            c[b["id"]] = b["property"] if res == "caught" else "missed"
            open(ROOT + "/tools/caught.txt", "w").write("".join(f"{k} {v}\n" for k, v in sorted(c.items())))
        if not ok:
            shutil.rmtree(d)
        sh(f"git -C {W} checkout -q -- .")


main()
