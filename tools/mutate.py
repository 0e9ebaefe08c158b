#!/usr/bin/env python3
"""Mutation analysis of the checks (a development aid, not a check): makes small syntactic changes to a scratch copy
of the sources, keeps those that compile and pass the repository's tests, and runs every property on each.
usage: mutate.py OUT.jsonl [--files a.cpp,b.cpp] [--sample N] [--seed S] [--jobs J] [--only-survivors IN.jsonl]"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import check
ROOT = "/tmp/mut"
SRC = ROOT + "/src"
WARN = "-Wno-all"
ORDER = {"parse": "C01 C02 C27 C03 C28 C24", "node": "C07 C03 C28 C13 C05 C06", "math_operator": "C05 C01 C03 C06 C27", "diff": "C09 C10 C11 C18", "simplify": "C08 C07 C28", "subs": "C12 C28",
         "mat": "C14 C15 C25 C16", "linear": "C16 C27 C23", "nonlinear": "C26 C20 C27 C19 C21", "symmat": "C17 C25 C18", "vars_table": "C22 C25", "config": "C04 C23", "error_type": "C27"}
ALL = sorted(f[:-4] for f in os.listdir(V + "/props") if f.endswith(".cpp"))


def sh(cmd, timeout=200):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


SWAPS = [(r"(?<![<>=!-])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![->=])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
         (r"(?<=[\w)\] ])\+(?=[ \w(])(?!\+)", ["-"]), (r"(?<=[\w)\] ])-(?=[ \w(])(?![->])", ["+"]), (r"(?<=[\w)] )\*(?= \w|\()", ["/"]), (r"(?<=[\w)] )/(?= [\w(])", ["*"]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bcontinue;", ["break;", ";"]), (r"\bbreak;", [";"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
         (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"\+\+", ["--"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"/=", ["*="]),
         (r"\brows\b", ["cols"]), (r"\bcols\b", ["rows"]), (r"\bRows\(\)", ["Cols()"]), (r"\bCols\(\)", ["Rows()"]), (r"\bif \((.*)\) \{", ["if (!(\\1)) {"]), (r"!(?=[\w(])", [""]), (r"\bMATH_(SIN|COS|LOG|LOG2|LOG10|ADD|SUB|POSITIVE|NEGATIVE|MULTIPLY|DIVIDE)\b", None)]
FLIP = {"SIN": "COS", "COS": "SIN", "LOG": "LOG2", "LOG2": "LOG10", "LOG10": "LOG", "ADD": "SUB", "SUB": "ADD", "POSITIVE": "NEGATIVE", "NEGATIVE": "POSITIVE", "MULTIPLY": "DIVIDE", "DIVIDE": "MULTIPLY"}


def mutants(path):
    lines = open(path, encoding="utf-8").read().split("\n")
    incomment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if incomment:
            incomment = "*/" not in s
            continue
        if s.startswith("/*"):
            incomment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "assert", "namespace", "using", "template", "friend", "cout", "std::cout")) or "cout <<" in s:
            continue
        code = l.split("//")[0]
        strings = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'', code)]
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in strings):
                    continue
                for r in (reps if reps is not None else ["MATH_" + FLIP[m.group(1)]]):
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    yield n, new + l[len(code):]
        if re.match(r"^[\w.\[\]()>*:-]+(\(.*\)| [-+*/]?= .*|\+\+|--);$", s) and not s.startswith(("return", "auto", "const", "int ", "double ", "throw", "case")):
            yield n, ""
        if s.startswith("throw "):
            yield n, ""
    return


def apply(path, n, new):
    lines = open(path, encoding="utf-8").read().split("\n")
    lines[n] = new
    return "\n".join(lines)


def main():
    args = sys.argv[1:]
    out = args.pop(0)
    opt = {}
    while args:
        k = args.pop(0)
        opt[k] = args.pop(0)
    jobs = int(opt.get("--jobs", 4))
    os.makedirs(ROOT, exist_ok=True)
    shutil.rmtree(SRC, ignore_errors=True)
    shutil.copytree("/repo/src", SRC)
    files = sorted(f for f in os.listdir(SRC + "/tomsolver") if f.endswith(".cpp"))
    B = ROOT + "/base"
    os.makedirs(B, exist_ok=True)
    todo = []
    for f in files:
        p = f"{SRC}/tomsolver/{f}"
        todo.append(f"g++ -std=c++14 -g0 -O0 -I{SRC} -c {p} -o {B}/{f}.t.o")
        todo.append(f"g++ -std=c++14 {check.SAN} -I{SRC} -c {p} -o {B}/{f}.s.o")
    for f in sorted(os.listdir("/repo/tests")):
        if f.endswith(".cpp"):
            todo.append(f"g++ -std=c++14 -g0 -O0 -I{SRC} -I/repo/tests -c /repo/tests/{f} -o {B}/test_{f}.o")
    for p in ALL:
        if p != "C24":
            todo.append(f"g++ -std=c++17 {check.SAN} -Wno-unused-result -I{V}/harness -I{SRC} -c {V}/props/{p}.cpp -o {B}/{p}.o")
    todo.append(f"g++ -std=c++17 {check.SAN} -I{V}/harness -c {V}/harness/main.cpp -o {B}/main.o")
    todo.append(f"g++ -std=c++17 {check.SAN.replace('-O1', '-O2')} -I{V}/harness -c {V}/harness/model.cpp -o {B}/model.o")
    with cf.ThreadPoolExecutor(8) as ex:
        for c, (rc, o) in zip(todo, ex.map(sh, todo)):
            if rc:
                print(c, o[:2000])
                return 1
    work = []
    for f in files:
        if "--files" in opt and f not in opt["--files"].split(","):
            continue
        for n, new in mutants(f"{SRC}/tomsolver/{f}"):
            work.append((f, n, new))
    random.Random(int(opt.get("--seed", 1))).shuffle(work)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    work = [w for w in work if w not in done]
    if "--sample" in opt:
        work = work[:int(opt["--sample"])]
    print(len(work), "mutants", flush=True)
    lock = threading.Lock()
    fo = open(out, "a")

    def one(k, w):
        f, n, new = w
        d = f"{ROOT}/m{k % 64}_{threading.get_ident()}"
        os.makedirs(d, exist_ok=True)
        src = f"{SRC}/tomsolver/{f}"
        r = {"file": f, "line": n, "old": open(src, encoding="utf-8").read().split("\n")[n], "new": new}
        try:
            open(f"{d}/{f}", "w", encoding="utf-8").write(apply(src, n, new))
            inc = f"-I{SRC} -I{SRC}/tomsolver"
            rc, o = sh(f"g++ -std=c++14 -g0 -O0 -Wall -Wextra -Werror {inc} -c {d}/{f} -o {d}/t.o")
            if rc:
                r["fate"] = "does not compile"
                return r
            libs = " ".join(f"{B}/{g}.t.o" for g in files if g != f)
            rc, o = sh(f"g++ {B}/test_*.o {d}/t.o {libs} -lgtest_main -lgtest -lpthread -o {d}/tests")
            if rc:
                r["fate"] = "does not link"
                return r
            rc, o = sh(f"cd {d} && ulimit -v 4000000 && timeout 60 ./tests")
            os.unlink(f"{d}/tests")
            if rc:
                r["fate"] = "killed by tests"
                return r
            rc, o = sh(f"g++ -std=c++14 {check.SAN} {inc} -c {d}/{f} -o {d}/s.o")
            libs = " ".join(f"{B}/{g}.s.o" for g in files if g != f)
            order = ORDER.get(f[:-4], "").split()
            for p in order + [x for x in ALL if x not in order]:
                if p in ("C24", "C29", "C23"):
                    continue
                rc, o = sh(f"g++ {check.SAN} {B}/{p}.o {B}/main.o {B}/model.o {d}/s.o {libs} -lpthread -o {d}/p")
                if rc:
                    r["fate"] = "link error " + o[:300]
                    return r
                cpu, cases, _ = check.knobs(p)
                rc, o = sh(f"{d}/p --seed 1 --cases {cases} --time 25 --shrink 0 --workers 3 --out {d}/o.json --replay-out {d}/r.txt", 600)
                try:
                    q = json.load(open(f"{d}/o.json"))
                except Exception:
                    q = {"verdict": "none", "message": o[:200]}
                if q["verdict"] != "ok":
                    r["fate"] = p
                    r["message"] = q.get("message", "")[:160]
                    return r
            r["fate"] = "SURVIVES"
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)

    t0 = time.time()
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(one, k, w) for k, w in enumerate(work)]
        for i, fu in enumerate(cf.as_completed(futs)):
            r = fu.result()
            with lock:
                fo.write(json.dumps(r, ensure_ascii=False) + "\n")
                fo.flush()
            if r["fate"] == "SURVIVES" or i % 50 == 0:
                print(f"[{time.time()-t0:.0f} s] {i}", r["fate"], r["file"], r["line"] + 1, "|", r["old"].strip(), "=>", r["new"].strip(), flush=True)


main()
