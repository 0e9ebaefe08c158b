#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] | --setup

Builds the harness of one property against /repo's current working tree (out of tree, in /verif/.build, keyed by
content), runs it on generated cases in several builds of the code, writes evidence/<id>.json and prints the verdict.
Exit 0: held on everything explored. 1: VIOLATION. 2: the check itself could not run."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TOMSOLVER_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
SAN = "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
PLAIN = "-O2 -DNDEBUG"
# variant: (which code, flags, compiler)
VARIANTS = {
    "A": ("src", SAN, "g++"),       # separate sources, sanitizers, asserts on
    "B": ("single", PLAIN, "g++"),  # single header, optimised, asserts off
    "A2": ("src", PLAIN, "g++"),
    "B2": ("single", SAN, "g++"),
    "T": ("src", "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer", "g++"),
    "F": ("src", "-O1 -g1 -fsanitize=address,undefined,fuzzer-no-link -fno-sanitize-recover=all", "clang++"),
}
DESCR = {
    "A": "separate sources, g++ -O1, AddressSanitizer+UBSan, asserts on",
    "B": "single header, g++ -O2 -DNDEBUG",
    "A2": "separate sources, g++ -O2 -DNDEBUG",
    "B2": "single header, g++ -O1, AddressSanitizer+UBSan, asserts on",
    "T": "separate sources, g++ -O1, ThreadSanitizer, asserts on",
    "F": "separate sources, clang++ libFuzzer (coverage-guided) + AddressSanitizer+UBSan",
}
# properties whose harness includes the code in its own way
BOTH = {"C24"}
# properties of several threads
THREADS = {"C29"}
# seconds per variant
QUICK_CAP, THOROUGH_CAP = 140, 420


class BuildError(Exception):
    def __init__(self, cmd, out, stage):
        super().__init__(stage)
        self.cmd, self.out, self.stage = cmd, out, stage


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


def run(cmd, stage, cwd=None):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode:
        raise BuildError(cmd, p.stdout.decode(errors="replace"), stage)


def cached(key, suffix, make):
    """make(tmp) writes the file; returns its final path"""
    path = os.path.join(BUILD, key + suffix)
    if os.path.exists(path):
        os.utime(path)
        return path
    fd, tmp = tempfile.mkstemp(dir=BUILD, suffix=suffix)
    os.close(fd)
    try:
        make(tmp)
        os.chmod(tmp, 0o755)
        os.rename(tmp, path)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return path


def prune():
    """keep the build cache small"""
    files = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    files = [f for f in files if os.path.isfile(f)]
    files.sort(key=lambda f: -os.stat(f).st_mtime)
    total = 0
    for f in files:
        total += os.stat(f).st_size
        if total > 1.5e9:
            try:
                os.unlink(f)
            except OSError:
                pass


class Builder:
    def __init__(self, jobs=8):
        os.makedirs(BUILD, exist_ok=True)
        prune()
        self.pool = cf.ThreadPoolExecutor(jobs)
        self.src_files = tree(os.path.join(REPO, "src"), (".cpp", ".h"))
        self.src_key = digest(*[x for f in self.src_files for x in (os.path.relpath(f, REPO), read(f))])
        self.single_files = tree(os.path.join(REPO, "single"), (".h",))
        self.single_key = digest(*[x for f in self.single_files for x in (os.path.relpath(f, REPO), read(f))])
        self.hdr_key = digest(*[read(f) for f in tree(os.path.join(HERE, "harness"), (".h", ".inc")) + tree(os.path.join(HERE, "props", "C24"), (".h",))])

    def obj(self, src, flags, cxx, inc, extra_key="", stage="harness"):
        cmd = f"{cxx} -std=c++17 {flags} -Wno-unused-result {inc} -c {src} -o "
        key = digest("obj", cmd, read(src), self.hdr_key, extra_key)
        return cached(key, ".o", lambda t: run(cmd + t, stage))

    def lib_objs(self, flags, cxx):
        inc = f"-I{REPO}/src"
        futs = []
        for f in self.src_files:
            if f.endswith(".cpp"):
                cmd = f"{cxx} -std=c++14 {flags} {inc} -c {f} -o "
                key = digest("lib", cmd, self.src_key)
                futs.append(self.pool.submit(cached, key, ".o", lambda t, cmd=cmd: run(cmd + t, "tomsolver sources")))
        return futs

    def executable(self, prop, variant):
        code, flags, cxx = VARIANTS[variant]
        driver = "fuzz.cpp" if variant == "F" else "main.cpp"
        hinc = f"-I{HERE}/harness"
        H = os.path.join(HERE, "harness")
        futs = [self.pool.submit(self.obj, f"{H}/{driver}", flags, cxx, hinc),
                self.pool.submit(self.obj, f"{H}/model.cpp", flags.replace("-O1", "-O2"), cxx, hinc)]
        pf = os.path.join(HERE, "props", prop + ".cpp")
        if prop in BOTH:
            # both implementations at once: the library renamed by namespace in the single-header units
            inc = f"{hinc} -I{REPO}/src"
            futs.append(self.pool.submit(self.obj, pf, flags, cxx, inc, self.src_key + self.single_key))
            for unit in ("single1.cpp", "single2.cpp"):
                futs.append(self.pool.submit(self.obj, f"{HERE}/props/C24/{unit}", flags, cxx,
                                             f"{hinc} -I{HERE}/props/C24 -I{REPO}/single/include -Dtomsolver=tomsolver_single",
                                             self.single_key, "single header"))
            futs += self.lib_objs(flags, cxx)
        elif code == "src":
            futs.append(self.pool.submit(self.obj, pf, flags, cxx, f"{hinc} -I{REPO}/src", self.src_key))
            futs += self.lib_objs(flags, cxx)
        else:
            futs.append(self.pool.submit(self.obj, pf, flags, cxx, f"{hinc} -I{REPO}/single/include", self.single_key))
        objs = [f.result() for f in futs]
        link = f"{cxx} {flags.replace('fuzzer-no-link', 'fuzzer')} {' '.join(objs)} -lpthread -o "
        key = digest("exe", link)
        return cached(key, ".exe", lambda t: run(link + t, "link"))


def knobs(prop):
    m = re.search(r"kKnobs\s*=\s*\{\s*([\d.]+)\s*,\s*(\d+)\s*,\s*\w+(?:\s*,\s*(\d+))?", read(os.path.join(HERE, "props", prop + ".cpp")).decode())
    return float(m.group(1)), int(m.group(2)), int(m.group(3) or 1)


def run_variant(exe, variant, prop, seed, cases, cap, start=0):
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(REPLAYS, f".{prop}-{variant}-{os.getpid()}.json")
    replay = os.path.join(REPLAYS, f"{prop}-{variant}-seed{seed}.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--start", str(start), "--time", str(cap), "--out", out,
           "--replay-out", replay, "--variant", variant, "--workers", str(min(8, os.cpu_count() or 8))]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        p.stdout_text = p.communicate(timeout=cap + 300)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        if not os.path.exists(out): # else: it was confirming a hang
            raise RuntimeError(f"{prop} {variant}: the runner did not finish")
        p.stdout_text = ""
    try:
        r = json.loads(read(out))
        os.unlink(out)
    except Exception:
        raise RuntimeError(f"runner failed ({p.returncode}): {p.stdout_text[-2000:]}")
    r["replay"] = replay
    return r


def run_fuzz(exe, runner_exe, prop, seed, seconds):
    """libFuzzer over the same property body; a crash is turned into a choice-sequence replay by the runner"""
    d = tempfile.mkdtemp(prefix="tomfuzz_")
    r = {"variant": "F", "verdict": "ok", "evaluations": 0, "distinct_nontrivial": 0, "nontrivial": 0, "discarded": 0, "samples": [],
         "labels": {}, "time_capped": False}
    t0 = time.time()
    try:
        os.mkdir(d + "/corpus")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=1:allocator_may_return_null=0", FUZZ_STATS=d + "/stats")
        cmd = [exe, d + "/corpus", f"-seed={seed}", f"-max_total_time={seconds}", "-max_len=4096", "-len_control=20", "-timeout=60",
               "-rss_limit_mb=3000", f"-artifact_prefix={d}/", "-jobs=8", "-workers=8", "-print_final_stats=1", "-close_fd_mask=3", "-use_value_profile=1"]
        subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=seconds + 200)
        for f in os.listdir(d):
            if f.startswith("stats."):
                w = read(os.path.join(d, f)).split()
                if len(w) >= 3:
                    r["evaluations"] += int(w[0]); r["nontrivial"] += int(w[1]); r["distinct_nontrivial"] += int(w[2])
        corpus = len(os.listdir(d + "/corpus"))
        r["labels"] = {"corpus entries (inputs with new coverage)": corpus}
        arts = sorted(f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-")))
        for a in arts[:4]:
            out = os.path.join(d, "res.json")
            replay = os.path.join(REPLAYS, f"{prop}-F-seed{seed}.txt")
            subprocess.run([runner_exe, "--seed", str(seed), "--from-bytes", os.path.join(d, a), "--out", out, "--replay-out", replay,
                            "--variant", "A"], stdout=subprocess.DEVNULL, timeout=400)
            q = json.loads(read(out))
            if q["verdict"] == "violation":
                r.update(verdict="violation", message=q["message"], replay=replay, replay_variant="A")
                break
        else:
            if arts:
                r["verdict"] = "unreproduced"
                r["message"] = "libFuzzer reported " + ", ".join(arts)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r["wall_s"] = time.time() - t0
    return r


def findings():
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) match=\"([^\"]*)\" (.*)", line)
        if m:
            out.append(m.groups())
    return out


def main():
    args = sys.argv[1:]
    opt = {}
    pos = []
    while args:
        a = args.pop(0)
        if a in ("--setup",):
            opt[a] = True
        elif a.startswith("--"):
            opt[a] = args.pop(0)
        else:
            pos.append(a)
    if "--setup" in opt:
        b = Builder()
        for flags in (SAN, PLAIN):
            for f in ("main.cpp", "model.cpp"):
                fl = flags.replace("-O1", "-O2") if f == "model.cpp" else flags
                b.obj(f"{HERE}/harness/{f}", fl, "g++", f"-I{HERE}/harness")
        print("setup done")
        return 0
    prop = pos[0]
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("--seed") or os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    b = Builder()
    if "--replay" in opt:
        head = open(opt["--replay"]).readline()
        m = re.search(r"variant (\S+)", head)
        v = opt.get("--variants") or (m.group(1) if m else "A")
        return subprocess.run([b.executable(prop, v), "--replay", opt["--replay"]]).returncode
    names = opt.get("--variants", "").split(",") if opt.get("--variants") else (["A", "B"] if tier == "quick" else ["A", "B", "A2", "B2", "F"])
    if prop in BOTH:
        names = [n for n in names if n not in ("A2", "B2")]
    if prop in THREADS and "--variants" not in opt:
        names = ["T", "B"] if tier == "quick" else ["T", "B", "A", "A2"]
    _, cases, factor = knobs(prop)  # factor: how many times more cases the builds without sanitizers run
    if tier == "thorough":
        cases *= 25
    if "--cases" in opt:
        cases = int(opt["--cases"])
    cap = float(opt.get("--cap") or (QUICK_CAP if tier == "quick" else THOROUGH_CAP))
    results, viol = [], None
    try:
        with cf.ThreadPoolExecutor(len(names)) as ex:
            exes = dict(zip(names, ex.map(lambda v: b.executable(prop, v), names)))
    except BuildError as e:
        log = f"$ {e.cmd}\n{e.out}"
        if prop in BOTH and (e.stage == "single header" or e.stage == "link" and "multiple definition" in e.out):
            os.makedirs(REPLAYS, exist_ok=True)
            replay = os.path.join(REPLAYS, f"{prop}-build.txt")
            open(replay, "w").write(f"# the single header could not be compiled or linked into two translation units ({e.stage})\n{log}")
            viol = dict(message=f"single header does not {'link from two translation units' if e.stage == 'link' else 'compile'}", replay=replay, variant="build")
            results.append(dict(variant="build", evaluations=1, distinct_nontrivial=0, samples=[log[:600]], labels={}, verdict="violation", message=viol["message"]))
        else:
            brief = [x for x in log.splitlines() if "error" in x or "undefined" in x][:12]
            print(f"check error: cannot build ({e.stage})\n" + "\n".join(x[:400] for x in brief or log.splitlines()[-12:]))
            return 2
    if "T" in names and not viol and subprocess.run([exes["T"], "--replay", "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 2:
        names = [n for n in names if n != "T"]  # ThreadSanitizer cannot map its memory here
        names = names if "A" in names else ["A"] + names
        exes["A"] = b.executable(prop, "A")
    tbuild = time.time() - t0
    if not viol:
        for n in names:
            if n == "F":
                r = run_fuzz(exes["F"], exes.get("A") or b.executable(prop, "A"), prop, seed, int(float(opt.get("--fuzz", 180))))
            else:
                r = run_variant(exes[n], n, prop, seed, cases * (factor if n in ('B', 'A2') else 1), cap)
                for attempt in range(2):
                    if r["verdict"] != "unreproduced":
                        break
                    first = r
                    r = run_variant(exes[n], n, prop, seed, cases * (factor if n in ('B', 'A2') else 1), cap)
                    if r["verdict"] == "unreproduced" and attempt == 1:
                        # fails every time when the whole range runs, though not alone
                        r["verdict"] = "violation"
                        r["message"] = "fails in every run of this range of cases, not alone: " + r["message"]
                        with open(r["replay"], "w") as f:
                            f.write(f"# property {prop} variant {n} {r['message']}\ncases {seed} {r['fail_index'] % 8} {r['fail_index']} 8\n")
                    r.setdefault("notes", []).append("unreproduced: " + first["message"])
            results.append(r)
            if r["verdict"] == "violation":
                viol = r
                break
    known = [f for f in findings() if f[0] == prop]
    hit = None
    if viol:
        for k in known:
            if k[1] in viol.get("message", ""):
                hit = k
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k[2]}")
    rule = next((r.get("rule") for r in results if r.get("rule")), "")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": max([r["distinct_nontrivial"] for r in results] or [0]),
            "rule": rule,
            "samples": [x for r in results for x in r.get("samples", [])][:8],
            "variants": [{"variant": r["variant"], "what": DESCR.get(r["variant"], r["variant"]),
                          **{k: r[k] for k in ("evaluations", "distinct_nontrivial", "nontrivial", "discarded", "time_capped", "verdict", "message", "labels", "wall_s", "slowest_case_cpu_s", "notes") if k in r}}
                         for r in results],
            "note": "evaluations counts cases over all variants; distinct_nontrivial is the largest count of any one variant (variants share seeds)",
        },
        "assumptions": ["the reference model in harness/model.cpp and libm agree with the stated semantics", "x86-64, gcc 13 / clang 18, glibc"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol and not hit else 0,
    }
    ev["coverage"]["build_s"] = round(tbuild, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    for r in results:
        print(f"{prop} {r['variant']}: {r['verdict']} {r['evaluations']} cases, {r['distinct_nontrivial']} distinct non-trivial, {r.get('wall_s', 0):.1f} s {r.get('message', '')[:400]}")
    print(f"{prop} {tier} seed {seed}: build {tbuild:.1f} s, total {time.time() - t0:.1f} s")
    if viol and not hit:
        print(f"VIOLATION property={prop} replay={viol['replay']}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
