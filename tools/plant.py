#!/usr/bin/env python3
"""Makes seeded changes from a spec file and confirms each in a scratch clone of /repo.

A spec file defines BUGS = {id: dict(prop=, edits=[(file, old, new), ...], demo=C++ text, needs=, breaks=,
header="both" | "src" | "only")}. For each id: edit the clone, regenerate the single header (unless header="src"),
build, run the tests, run the demonstration with and without the change; keep it in seeded/<id>/ when all holds.
usage: plant.py SPEC [ID...]
"""
import json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "seeded")
ROOT = "/tmp/plant"
REPO, BUILD = ROOT + "/repo", ROOT + "/build"
BASE = "24357c7"
FLAGS = ["-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_BUILD_TYPE=Debug", "-DBUILD_TESTS=ON", "-DBUILD_EXAMPLES=ON",
         "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest"]
DEMO = r'''#!/bin/bash
# Compiles demo.cpp with the library's current sources and runs it. cwd: the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
pids=()
for f in src/tomsolver/*.cpp "$d/demo.cpp"; do
  g++ -std=c++14 -g -Isrc -Isrc/tomsolver -c "$f" -o "$t/$(basename "$f").o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 2; done
g++ "$t"/*.o -o "$t/demo" -lpthread || exit 2
timeout 100 "$t/demo" > "$t/out" 2>&1
rc=$?
tail -c 2000 "$t/out"
exit $rc
'''
DEMO_SINGLE = r'''#!/bin/bash
# Compiles demo.cpp with the checked-in single header and runs it. cwd: the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
g++ -std=c++14 -g -Isingle/include "$d/demo.cpp" -o "$t/demo" -lpthread || exit 2
timeout 100 "$t/demo" > "$t/out" 2>&1
rc=$?
tail -c 2000 "$t/out"
exit $rc
'''
PRE = '#include <tomsolver/tomsolver.h>\n#include <tomsolver/error_type.h>\n'
PRE_SINGLE = '#include <tomsolver/tomsolver.h>\n'
COMMON = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
using namespace tomsolver;
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); exit(1); } } while (0)
'''


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def original_lines(f):
    out = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], cwd=REPO).stdout
    head = sh(["git", "rev-parse", BASE], cwd=REPO).stdout.strip()
    anc = set(sh(["git", "rev-list", BASE], cwd=REPO).stdout.split())
    return [l.split()[0].lstrip("^") in anc or any(a.startswith(l.split()[0].lstrip("^")) for a in anc) for l in out.splitlines()]


def run_tests():
    bad = []
    for d in ("tests", "single/test"):
        r = sh(["ctest", "--test-dir", f"{BUILD}/{d}", "-j8", "--timeout", "100"])
        if r.returncode:
            bad += re.findall(r"^\s*\d+ - (\S+) \(", r.stdout, re.M) or [r.stdout[-500:]]
    return bad


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    bugs = spec["BUGS"]
    ids = sys.argv[2:] or [b for b in bugs if not os.path.exists(os.path.join(SEEDED, b, "meta.json"))]
    os.makedirs(ROOT, exist_ok=True)
    if not os.path.exists(REPO):
        sh(["git", "clone", "-q", "/repo", REPO])
    sh(["git", "fetch", "-q"], cwd=REPO)
    sh(["git", "checkout", "-q", "-f", "origin/HEAD"], cwd=REPO)
    sh(["cmake", "-S", REPO, "-B", BUILD] + FLAGS)
    for b in ids:
        s = bugs[b]
        sh(["git", "checkout", "-q", "--", "."], cwd=REPO)
        ok = True
        mode = s.get("header", "both")
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, f if "/" in f else "src/tomsolver/" + f)
            t = open(p).read()
            if t.count(old) != 1:
                print(b, "EDIT does not match once:", f, t.count(old), repr(old[:60]))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        if mode == "both":
            sh([sys.executable, "combine_src_to_header_only.py"], cwd=REPO + "/scripts")
        diff = sh(["git", "diff", "-U3"], cwd=REPO).stdout
        d0 = sh(["git", "diff", "-U0", "--", "src" if mode != "only" else "single"], cwd=REPO).stdout
        orig, tot, cur, ol = 0, 0, None, None
        for l in d0.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                ol = original_lines(cur)
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m and m.group(2) != "0":
                for k in range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)):
                    tot += 1
                    orig += ol[k - 1]
        print(b, s["prop"], f"changed lines original: {orig}/{tot}", "(pure insertion)" if not tot else "")
        r = sh(["ninja", "-C", BUILD, "-j8"])
        if r.returncode:
            print(b, "BUILD FAILS\n", "\n".join(x for x in r.stdout.splitlines() if "error" in x)[:1500])
            continue
        bad = run_tests()
        if bad:
            print(b, "TESTS FAIL:", sorted(set(bad))[:6])
            continue
        out = os.path.join(SEEDED, b)
        tmp = ROOT + "/out"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        single = s.get("single", False)
        open(tmp + "/demo.cpp", "w").write((PRE_SINGLE if single else PRE) + COMMON + s["demo"].lstrip("\n"))
        open(tmp + "/demo.sh", "w").write(s.get("demo_sh") or (DEMO_SINGLE if single else DEMO))
        os.chmod(tmp + "/demo.sh", 0o755)
        for n, t in s.get("files", {}).items():
            open(tmp + "/" + n, "w").write(t)
        patched = sh(["bash", tmp + "/demo.sh"], cwd=REPO, timeout=300)
        sh(["git", "checkout", "-q", "--", "."], cwd=REPO)
        clean = sh(["bash", tmp + "/demo.sh"], cwd=REPO, timeout=300)
        if clean.returncode != 0 or patched.returncode in (0, 2):
            print(b, "DEMO: clean", clean.returncode, clean.stdout[-600:], "patched", patched.returncode, patched.stdout[-600:])
            continue
        open(tmp + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(b, "KEPT:", patched.stdout.strip()[-200:])
    sh(["git", "checkout", "-q", "--", "."], cwd=REPO)


main()
