// Runner: generates cases in forked workers, isolates crashes and hangs, confirms, shrinks and
// writes a replay file. See pbt.h.
#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

using namespace pbt;
typedef std::vector<uint64_t> Choices;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static std::string jsonStr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

enum Status { PASS = 0, FAIL = 1, DISCARD = 2, CRASH = 3, HANG = 4, ENV = 5 };

struct Run {
    Status st = PASS;
    std::string msg, desc, key;
    bool nontrivial = false;
    std::map<std::string, long> labels;
    Choices used;
};

static Run runHere(Src &s, bool verbose) {
    Run r;
    Case c(s, verbose);
    try {
        property(c);
        r.st = PASS;
    } catch (const Failure &f) {
        r.st = FAIL;
        r.msg = f.msg;
    } catch (const Discard &) {
        r.st = DISCARD;
    } catch (const std::exception &e) {
        r.st = FAIL;
        r.msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        r.st = FAIL;
        r.msg = "unexpected exception of unknown type";
    }
    r.nontrivial = c.nontrivial && r.st == PASS;
    r.labels = c.labels;
    r.desc = c.desc.str();
    r.key = c.key;
    r.used = s.choices();
    return r;
}

static void armTimer(double cpu) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)cpu;
    it.it_value.tv_usec = (long)((cpu - (long)cpu) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static double gLimit = kKnobs.cpuLimit; // lower while shrinking
static uint64_t gSeed = 1;
static Src srcFor(uint64_t i) {
    return Src(mix(mix(gSeed * 0x100000001b3ull + hashStr(kPropertyId)) ^ mix(i + 1)));
}

static void quiet() {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    rl.rlim_cur = rl.rlim_max = 3ull << 30; // a runaway allocation becomes bad_alloc, not an out-of-memory kill
    setrlimit(RLIMIT_AS, &rl);
#endif
}
#ifdef __SANITIZE_ADDRESS__
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_segv=1:use_sigaltstack=1:malloc_context_size=3:quarantine_size_mb=16";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }
#endif
#ifdef __SANITIZE_THREAD__
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=99:report_thread_leaks=0:history_size=4"; }
// a cache inside libstdc++ that every thread fills with the same bytes
extern "C" const char *__tsan_default_suppressions() { return "race:std::ctype<char>\n"; }
#endif

static std::string signame(int sig) {
    return std::string("killed by signal ") + std::to_string(sig) + " (" + strsignal(sig) + ")";
}

// Runs f in a child process with stdout/stderr silenced; f returns the run to report.
static Run inChild(const std::function<Run()> &f, std::string *errText = nullptr) {
    int pfd[2];
    if (pipe(pfd)) { Run r; r.st = ENV; return r; }
    char tmp[] = "/tmp/pbt_err_XXXXXX";
    int efd = errText ? mkstemp(tmp) : -1;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { close(pfd[0]); close(pfd[1]); Run r; r.st = ENV; return r; }
    if (pid == 0) {
        close(pfd[0]);
        quiet();
        if (efd >= 0) dup2(efd, 2);
        armTimer(gLimit);
        Run r = f();
        std::ostringstream o;
        o << (int)r.st << "\n" << r.used.size() << "\n";
        for (auto v : r.used) o << v << " ";
        o << "\n" << r.nontrivial << " " << r.labels.size() << "\n";
        for (auto &l : r.labels) o << l.second << " " << l.first << "\n";
        o << r.key.size() << "\n" << r.key << "\n" << r.msg.size() << "\n" << r.msg << r.desc;
        std::string t = o.str();
        size_t off = 0;
        while (off < t.size()) {
            ssize_t w = write(pfd[1], t.data() + off, t.size() - off);
            if (w <= 0) break;
            off += w;
        }
        _exit(0);
    }
    close(pfd[1]);
    std::string t;
    char buf[65536];
    ssize_t n;
    while ((n = read(pfd[0], buf, sizeof buf)) > 0) t.append(buf, n);
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    Run r;
    if (errText) {
        std::ifstream in(tmp);
        std::stringstream ss;
        ss << in.rdbuf();
        *errText = ss.str().substr(0, 3000);
        close(efd);
        unlink(tmp);
    }
    if (WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        r.st = sig == SIGVTALRM ? HANG : sig == SIGKILL ? ENV : CRASH;
        r.msg = sig == SIGVTALRM ? "used more than " + std::to_string((int)kKnobs.cpuLimit) + " s of CPU (hang)" : signame(sig);
        return r;
    }
    if (t.empty() || WEXITSTATUS(st) != 0) {
        r.st = CRASH;
        r.msg = "process exited with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report, terminate or exit)";
        return r;
    }
    std::istringstream in(t);
    int s;
    size_t k;
    in >> s >> k;
    r.st = (Status)s;
    r.used.resize(k);
    for (auto &v : r.used) in >> v;
    size_t nl, ml;
    in >> r.nontrivial >> nl;
    for (size_t i = 0; i < nl && in; i++) {
        long n;
        std::string name;
        in >> n;
        in.get();
        std::getline(in, name);
        r.labels[name] = n;
    }
    in >> ml;
    in.get();
    r.key.resize(ml);
    in.read(&r.key[0], (std::streamsize)ml);
    in >> ml;
    in.get();
    r.msg.resize(ml);
    in.read(&r.msg[0], (std::streamsize)ml);
    r.desc.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
    return r;
}

// CPU seconds of this process and of its finished children
static double cpu() {
    struct rusage a, b;
    getrusage(RUSAGE_SELF, &a);
    getrusage(RUSAGE_CHILDREN, &b);
    auto s = [](const struct timeval &v) { return (double)v.tv_sec + (double)v.tv_usec * 1e-6; };
    return s(a.ru_utime) + s(b.ru_utime);
}

static bool bad(const Run &r) { return r.st == FAIL || r.st == CRASH || r.st == HANG; }

static Run runChoices(const Choices &c, bool verbose = false, std::string *err = nullptr) {
    return inChild([&] { Src s(c); return runHere(s, verbose); }, err);
}
struct Shm {
    volatile int64_t cur[64];
    volatile int64_t done[64];
    volatile double slowest[64];
};

static bool shortlexLess(const Choices &a, const Choices &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

// Crashing cases do not report the choices they used: run the case again, streaming every draw
// into shared memory.
static Choices recordCase(uint64_t i) {
    const size_t cap = 1 << 24;
    uint64_t *m = (uint64_t *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return {};
    m[0] = 0;
    inChild([&] {
        gTap = m;
        gTapCap = cap / 8 - 1;
        Src s = srcFor(i);
        return runHere(s, false);
    });
    Choices out(m + 1, m + 1 + m[0]);
    munmap(m, cap);
    return out;
}

static Choices shrink(Choices best, double budget, long &evals) {
    double t0 = now();
    struct Lower { Lower() { gLimit = std::min(kKnobs.cpuLimit, 8.0); } ~Lower() { gLimit = kKnobs.cpuLimit; } } lower;
    auto over = [&] { return now() - t0 > budget || evals > 6000; };
    auto tryIt = [&](const Choices &cand) {
        if (over() || !shortlexLess(cand, best)) return false;
        evals++;
        Run r = runChoices(cand);
        if (!bad(r) || r.st == HANG) return false;
        Choices c = cand;
        if (r.st == FAIL && r.used.size() < c.size()) c.resize(r.used.size());
        best = c;
        return true;
    };
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        // drop the tail
        for (size_t k = best.size(); k >= 1 && !over(); k /= 2) {
            while (best.size() >= k) {
                Choices c(best.begin(), best.end() - (long)k);
                if (!tryIt(c)) break;
                progress = true;
            }
        }
        // delete blocks
        for (size_t blk : {64, 32, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = best.size(); i-- > 0 && !over();) {
                if (i + blk > best.size()) continue;
                Choices c(best);
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + blk));
                if (tryIt(c)) progress = true;
                else if (i > 0 && i - 1 < best.size() && best[i - 1] > 0) {
                    // deleting an element often needs a length choice before it to drop by one
                    c[i - 1] = best[i - 1] - 1;
                    if (tryIt(c)) progress = true;
                }
            }
        }
        for (size_t blk : {16, 4, 1}) {
            for (size_t i = 0; i + blk <= best.size() && !over(); i++) {
                if (std::all_of(best.begin() + (long)i, best.begin() + (long)(i + blk), [](uint64_t v) { return v == 0; })) continue;
                Choices c(best);
                std::fill(c.begin() + (long)i, c.begin() + (long)(i + blk), 0);
                if (tryIt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < best.size() && !over(); i++) {
            uint64_t lo = 0, hi = best[i];
            while (lo < hi && !over() && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                Choices c(best);
                c[i] = mid;
                if (tryIt(c)) { progress = true; hi = std::min(mid, i < best.size() ? best[i] : 0); }
                else lo = mid + 1;
            }
        }
    }
    return best;
}

struct Opts {
    long cases = -1;
    int workers = 8;
    double timeCap = 300, shrinkCap = 60;
    std::string out = "/dev/null", replayOut, replay, bytes, variant = "?";
    uint64_t start = 0;
};

static void writeReplay(const std::string &path, const Opts &o, const Choices &c, const Run &r, const std::string &err,
                        const std::string &how) {
    std::ofstream f(path);
    f << "# property " << kPropertyId << " variant " << o.variant << " seed " << gSeed << " " << how << "\n";
    f << "# " << (r.st == HANG ? "HANG" : r.st == CRASH ? "CRASH" : "FAIL") << ": ";
    for (char ch : r.msg) f << (ch == '\n' ? std::string("\n# ") : std::string(1, ch));
    f << "\nchoices";
    for (auto v : c) f << " " << v;
    f << "\n\n# --- the case, written out ---\n" << r.desc << "\n";
    if (!err.empty()) f << "# --- stderr ---\n" << err << "\n";
}

int main(int argc, char **argv) {
    Opts o;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") gSeed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = atol(v.c_str());
        else if (a == "--start") o.start = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = atoi(v.c_str());
        else if (a == "--time") o.timeCap = atof(v.c_str());
        else if (a == "--shrink") o.shrinkCap = atof(v.c_str());
        else if (a == "--out") o.out = v;
        else if (a == "--replay-out") o.replayOut = v;
        else if (a == "--replay") o.replay = v;
        else if (a == "--variant") o.variant = v;
        else if (a == "--from-bytes") o.bytes = v;
        else { std::cerr << "unknown option " << a << "\n"; return 2; }
    }
    if (o.cases < 0) o.cases = kKnobs.defaultCases;
    if (o.workers > 60) o.workers = 60;
    if (!o.replay.empty()) {
        std::ifstream f(o.replay);
        std::string line;
        Choices c;
        bool have = false;
        while (std::getline(f, line)) {
            if (line.rfind("choices", 0) == 0) {
                std::istringstream in(line.substr(7));
                uint64_t v;
                while (in >> v) c.push_back(v);
                have = true;
                break;
            }
            if (line.rfind("cases ", 0) == 0) { // a sequence of whole cases: seed first last step
                std::istringstream in(line.substr(6));
                uint64_t sd, a, b, st;
                in >> sd >> a >> b >> st;
                gSeed = sd;
                std::string err;
                Run r = inChild([&] {
                    Run x;
                    for (uint64_t k = a; k <= b; k += st) {
                        Src s = srcFor(k);
                        x = runHere(s, k == b);
                        if (bad(x)) return x;
                    }
                    return x;
                }, &err);
                std::cout << (bad(r) ? "FAILS: " : "passes ") << r.msg << "\n" << r.desc << "\n" << err;
                return bad(r) ? 1 : 0;
            }
        }
        if (!have) { std::cerr << "no choices in " << o.replay << "\n"; return 2; }
        std::string err;
        Run r = runChoices(c, true, &err);
        std::cout << (bad(r) ? "FAILS: " : r.st == DISCARD ? "discarded " : "passes ") << r.msg << "\n" << r.desc << "\n" << err;
        return bad(r) ? 1 : 0;
    }

    if (!o.bytes.empty()) { // a libFuzzer artifact: confirm, shrink as choices, write the replay
        std::ifstream in(o.bytes, std::ios::binary);
        std::string data((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        const size_t cap = 1 << 24;
        uint64_t *m = (uint64_t *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        m[0] = 0;
        Run r = inChild([&] {
            gTap = m;
            gTapCap = cap / 8 - 1;
            Src s((const uint8_t *)data.data(), data.size());
            return runHere(s, false);
        });
        Choices c(m + 1, m + 1 + m[0]);
        std::string verdict = "unreproduced";
        if (bad(r) && bad(runChoices(c))) {
            long evals = 0;
            if (r.st != HANG) c = shrink(c, o.shrinkCap, evals);
            std::string err;
            r = runChoices(c, true, &err);
            writeReplay(o.replayOut, o, c, r, err, "found by libFuzzer");
            verdict = "violation";
        }
        std::ofstream f(o.out);
        f << "{\"verdict\":" << jsonStr(verdict) << ",\"message\":" << jsonStr(r.msg) << "}\n";
        return verdict == "violation" ? 1 : 0;
    }

    double t0 = now();
    Shm *shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const int W = o.workers;
    std::vector<pid_t> pids(W);
    std::vector<std::string> files(W);
    char dir[] = "/tmp/pbt_run_XXXXXX";
    if (!mkdtemp(dir)) return 2;
    for (int w = 0; w < W; w++) {
        shm->cur[w] = -1;
        files[w] = std::string(dir) + "/w" + std::to_string(w);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { std::cerr << "fork failed\n"; return 2; }
        if (pid == 0) {
            quiet();
            long pass = 0, disc = 0, nont = 0;
            std::map<std::string, long> labels;
            std::vector<uint64_t> keys;
            std::vector<std::string> samples;
            std::string failMsg;
            int rc = 0;
            for (uint64_t i = o.start + (uint64_t)w; i < o.start + (uint64_t)o.cases; i += (uint64_t)W) {
                if (now() - t0 > o.timeCap) { rc = 3; break; }
                shm->cur[w] = (int64_t)i;
                Run r;
                double c0 = cpu();
                if (kKnobs.forkEach) {
                    r = inChild([&] { Src s = srcFor(i); return runHere(s, false); });
                } else {
                    armTimer(kKnobs.cpuLimit);
                    Src s = srcFor(i);
                    r = runHere(s, false);
                }
                shm->slowest[w] = std::max((double)shm->slowest[w], cpu() - c0);
                if (r.st == DISCARD) { disc++; continue; }
                if (bad(r)) { failMsg = r.msg; rc = 1; break; }
                pass++;
                shm->done[w] = pass;
                for (auto &l : r.labels) labels[l.first] += l.second;
                if (r.nontrivial) {
                    nont++;
                    uint64_t h;
                    if (!r.key.empty()) h = hashStr(r.key);
                    else { h = 7; for (auto v : r.used) h = mix(h ^ v); }
                    keys.push_back(h);
                    if (samples.size() < 2 && (nont == 1 || nont % 97 == 0)) {
                        auto again = [&] { Src s2 = srcFor(i); return runHere(s2, true); };
                        Run r2 = kKnobs.forkEach ? inChild(again) : again();
                        samples.push_back(r2.desc.substr(0, 600));
                    }
                }
            }
            armTimer(0);
            std::ofstream f(files[w]);
            f << rc << " " << pass << " " << disc << " " << nont << " " << labels.size() << " " << keys.size() << " " << samples.size() << "\n";
            for (auto &l : labels) f << l.second << " " << l.first << "\n";
            for (auto k : keys) f << k << "\n";
            for (auto &s : samples) { f << s.size() << "\n" << s << "\n"; }
            f << failMsg.size() << "\n" << failMsg;
            f.close();
            _exit(rc == 1 ? 1 : 0);
        }
        pids[w] = pid;
    }
    // wait; the first failure stops everything
    int64_t failIdx = -1;
    int failWorker = -1;
    std::string firstMsg;
    std::vector<int64_t> envLost;
    int left = W;
    std::vector<bool> ended(W, false);
    while (left > 0) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (int w = 0; w < W; w++) {
            if (pids[w] != p) continue;
            ended[w] = true;
            left--;
            bool failed = false;
            if (WIFSIGNALED(st)) {
                int sig = WTERMSIG(st);
                if (failIdx >= 0 && sig == SIGKILL) break;
                failed = true;
                firstMsg = sig == SIGVTALRM ? "hang" : signame(sig);
            } else if (WEXITSTATUS(st) != 0) {
                failed = true;
                firstMsg = "exit status " + std::to_string(WEXITSTATUS(st));
            }
            if (failed && failIdx < 0) {
                failIdx = shm->cur[w];
                failWorker = w;
                for (int v = 0; v < W; v++) if (!ended[v]) kill(pids[v], SIGKILL);
            }
            break;
        }
    }
    // gather
    long pass = 0, disc = 0, nont = 0;
    bool capped = false;
    std::map<std::string, long> labels;
    std::unordered_set<uint64_t> keys;
    std::vector<std::string> samples;
    for (int w = 0; w < W; w++) {
        std::ifstream f(files[w]);
        int rc;
        long a, b, c;
        size_t nl, nk, ns;
        if (!(f >> rc >> a >> b >> c >> nl >> nk >> ns)) { pass += shm->done[w]; continue; }
        pass += a; disc += b; nont += c;
        if (rc == 3) capped = true;
        std::string line;
        for (size_t i = 0; i < nl; i++) { long n; f >> n; f.get(); std::getline(f, line); labels[line] += n; }
        for (size_t i = 0; i < nk; i++) { uint64_t k; f >> k; keys.insert(k); }
        for (size_t i = 0; i < ns; i++) { size_t n; f >> n; f.get(); std::string s(n, 0); f.read(&s[0], (std::streamsize)n); f.get(); if (samples.size() < 6) samples.push_back(s); }
        if (rc == 1) { size_t n; f >> n; f.get(); std::string s(n, 0); f.read(&s[0], (std::streamsize)n); if (w == failWorker) firstMsg = s; }
        unlink(files[w].c_str());
    }
    for (int w = 0; w < W; w++) unlink(files[w].c_str());
    rmdir(dir);

    std::string verdict = "ok", vmsg;
    long shrinkEvals = 0;
    if (failIdx >= 0) {
        // confirm alone, three times
        int again = 0;
        if (firstMsg == "hang") { // should this runner be stopped while it confirms: a first verdict
            std::ofstream r(o.replayOut);
            r << "# property " << kPropertyId << " variant " << o.variant << " case " << failIdx << "\n# hang\ncases " << gSeed << " " << failIdx << " " << failIdx << " 1\n";
            std::ofstream f(o.out);
            f << "{\"property\":" << jsonStr(kPropertyId) << ",\"variant\":" << jsonStr(o.variant) << ",\"verdict\":\"violation\",\"message\":\"used more than " << kKnobs.cpuLimit
              << " s of CPU (hang)\",\"evaluations\":" << pass + 1 << ",\"discarded\":" << disc << ",\"nontrivial\":" << nont << ",\"distinct_nontrivial\":" << keys.size()
              << ",\"time_capped\":false,\"fail_index\":" << failIdx << ",\"shrink_evals\":0,\"wall_s\":" << now() - t0 << ",\"rule\":" << jsonStr(kRule) << ",\"labels\":{},\"samples\":[]}\n";
        }
        Run r1;
        for (int k = 0; k < 3; k++) {
            r1 = inChild([&] { Src s = srcFor((uint64_t)failIdx); return runHere(s, false); });
            if (bad(r1)) again++;
            if (k == 0 && r1.st == HANG) { again = 3; break; } // twice over the limit is enough
        }
        if (again == 3) {
            Choices c = r1.st == FAIL ? r1.used : r1.st == HANG ? Choices() : recordCase((uint64_t)failIdx);
            if (r1.st == CRASH && !bad(runChoices(c))) c.clear();
            std::string how = "case " + std::to_string(failIdx);
            if (!c.empty() && bad(runChoices(c))) {
                c = shrink(c, o.shrinkCap, shrinkEvals);
                std::string err;
                Run r = runChoices(c, true, &err);
                writeReplay(o.replayOut, o, c, r, err, how);
                vmsg = r.msg;
            } else {
                std::ofstream f(o.replayOut);
                f << "# property " << kPropertyId << " variant " << o.variant << " " << how << "\n# " << r1.msg << "\ncases " << gSeed << " " << failIdx << " " << failIdx << " 1\n";
                vmsg = r1.msg;
            }
            verdict = "violation";
        } else {
            // does it depend on the cases the worker ran before?
            uint64_t first = o.start + (uint64_t)failWorker;
            auto seq = [&](uint64_t from) {
                return inChild([&] {
                    Run x;
                    for (uint64_t k = from; k <= (uint64_t)failIdx; k += (uint64_t)W) {
                        armTimer(kKnobs.cpuLimit);
                        Src s = srcFor(k);
                        x = runHere(s, false);
                        if (bad(x)) return x;
                    }
                    return x;
                });
            };
            Run a = seq(first);
            if (bad(a) && bad(seq(first))) {
                uint64_t from = first;
                for (uint64_t k = 2; (uint64_t)failIdx >= first + (k - 1) * W; k *= 2) {
                    uint64_t f2 = (uint64_t)failIdx - (k - 1) * W;
                    if (bad(seq(f2))) { from = f2; break; }
                }
                std::ofstream f(o.replayOut);
                f << "# property " << kPropertyId << " variant " << o.variant << ": fails only after earlier calls in the same process\n# " << a.msg
                  << "\ncases " << gSeed << " " << from << " " << failIdx << " " << W << "\n";
                verdict = "violation";
                vmsg = "history-dependent: " + a.msg;
            } else {
                verdict = "unreproduced";
                vmsg = firstMsg;
            }
        }
    }
    std::ofstream f(o.out);
    f << "{\"property\":" << jsonStr(kPropertyId) << ",\"variant\":" << jsonStr(o.variant) << ",\"verdict\":" << jsonStr(verdict)
      << ",\"message\":" << jsonStr(vmsg) << ",\"evaluations\":" << pass + (failIdx >= 0 ? 1 : 0) << ",\"discarded\":" << disc << ",\"nontrivial\":" << nont
      << ",\"distinct_nontrivial\":" << keys.size() << ",\"time_capped\":" << (capped ? "true" : "false") << ",\"fail_index\":" << failIdx
      << ",\"shrink_evals\":" << shrinkEvals << ",\"slowest_case_cpu_s\":" << *std::max_element(shm->slowest, shm->slowest + W) << ",\"wall_s\":" << now() - t0 << ",\"rule\":" << jsonStr(kRule) << ",\"labels\":{";
    bool firstL = true;
    for (auto &l : labels) { f << (firstL ? "" : ",") << jsonStr(l.first) << ":" << l.second; firstL = false; }
    f << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << jsonStr(samples[i]);
    f << "]}\n";
    return verdict == "violation" ? 1 : 0;
}
