#include "bridge.h"
#include "scriptgen.h"
#define INTERP_NS interp_lib
#include "interp.inc"
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace bridge;
const char *const kPropertyId = "C23";
const char *const kRule =
    "a case is a history of up to 40 API calls (failing ones, configuration changes, every log level), a chosen configuration and a query of up to 12 calls (in half the cases also a fixed set of matrix, vector, table and linear-solver functions on drawn data and epsilon); the query runs in a "
    "forked child that has seen nothing else and, under another log level, after the history with the history's objects still alive, and the logs (values bit for bit, texts, exceptions) "
    "must agree; the configuration may only change when the script changes it and Reset must restore the documented defaults. Non-trivial: the query has two or more results and "
    "the history five or more.";
const Knobs kKnobs = {60, 4000, true, 5};

namespace {
void set(const ts::Config &c) { ts::Config::Get() = c; }
std::string join(const std::vector<std::string> &v) {
    std::string o;
    for (auto &l : v) { for (char ch : l) o += ch == '\n' ? '\x01' : ch; o += '\n'; }
    return o;
}
// Matrix and vector functions, the ones that read epsilon or might keep scratch data between calls.
struct MatQuery { int r, k; std::vector<double> v, w; double eps; };
MatQuery genMats(Src &s) {
    MatQuery q;
    q.r = (int)s.range(1, s.draw(4) ? 4 : 40);
    q.k = (int)s.range(1, q.r > 6 ? 3 : 6);
    q.eps = s.pick({1e-9, 1e-3, 0.5, 2.0, 0.0});
    double near = s.pick({1e-9, 1e-3, 0.5, 2.0}) * s.pick({1.0, 0.5, 3.0, 1.5});
    int style = (int)s.draw(3);
    for (int i = 0; i < q.r * q.k; i++) {
        double x = style == 0 ? (double)s.range(-9, 9) : style == 1 ? near * s.pick({1.0, -1.0, 0.5}) : s.unit() * 4 - 2;
        q.v.push_back(x);
        q.w.push_back(style == 1 && s.draw(4) ? x + near * s.pick({1.0, 0.5, -1.0}) : (double)s.range(-9, 9));
    }
    return q;
}
std::string showMats(const MatQuery &q) {
    std::ostringstream o;
    o << q.r << "x" << q.k << " eps " << q.eps << ":";
    for (double x : q.v) o << " " << x;
    o << " |";
    for (double x : q.w) o << " " << x;
    return o.str();
}
std::string runMats(const MatQuery &q) {
    double keep = ts::Config::Get().epsilon;
    ts::Config::Get().epsilon = q.eps;
    std::ostringstream o;
    o << std::hexfloat;
    auto mat = [&](const char *t, const ts::Mat &m) { o << t; for (int i = 0; i < m.Rows(); i++) for (int j = 0; j < m.Cols(); j++) o << " " << m.Value(i, j); o << "\n"; };
    ts::Mat a(q.r, q.k), b(q.r, q.k);
    for (int i = 0; i < q.r; i++) for (int j = 0; j < q.k; j++) { a.Value(i, j) = q.v[(size_t)(i * q.k + j)]; b.Value(i, j) = q.w[(size_t)(i * q.k + j)]; }
    o << "zero " << ts::IsZero(a) << " " << (a == q.v[0]) << " " << (a == 0) << " equal " << (a == b) << " less " << ts::AllIsLessThan(a, b) << "\n";
    o << "norms " << a.Norm2() << " " << a.NormInfinity() << " " << a.NormNegInfinity() << " " << a.Min() << "\n";
    mat("sum", a + b);
    mat("difference", a - b);
    mat("product", a * b.Transpose());
    mat("quotient", ts::EachDivide(a, b));
    o << "text " << a.ToString();
    for (int j = 0; j < q.k; j++) o << "row of the largest " << ts::GetMaxAbsRowIndex(a, 0, q.r - 1, j) << "\n";
    ts::Vec u(q.r), v(q.r);
    for (int i = 0; i < q.r; i++) { u[(size_t)i] = a.Value(i, 0); v[(size_t)i] = b.Value(i, 0); }
    o << "dot " << ts::Dot(u, v) << " " << (u < v) << "\n";
    mat("vector product", u * v);
    mat("vector sum", u + v);
    int n = std::min({q.r, q.k, 4});
    ts::Mat sq(n, n), adj(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sq.Value(i, j) = a.Value(i, j);
    o << "determinant " << ts::Det(sq, n) << " " << sq.PositiveDetermine() << "\n";
    ts::Adjoint(sq, adj);
    mat("adjugate", adj);
    try { mat("inverse", sq.Inverse()); } catch (const ts::MathError &e) { o << "inverse: error " << (int)e.GetErrorType() << "\n"; }
    ts::Vec rhs(n);
    for (int i = 0; i < n; i++) rhs[(size_t)i] = q.w[(size_t)i];
    try { mat("solution", ts::SolveLinear(sq, rhs)); } catch (const ts::MathError &e) { o << "linear: error " << (int)e.GetErrorType() << "\n"; }
    ts::VarsTable ta(std::map<std::string, double>{{"a", q.v[0]}, {"b", q.v.back()}}), tb(std::map<std::string, double>{{"a", q.w[0]}, {"b", q.w.back()}});
    o << "tables " << (ta == tb) << "\n" << ta.ToString();
    ts::Config::Get().epsilon = keep;
    return o.str();
}
} // namespace

void property(Case &c) {
    Src &s = c.s;
    script::Script history = script::generate(s, 40, true), query = script::generate(s, 12, false);
    ts::Config conf; // for the query
    conf.Reset();
    conf.throwOnInvalidValue = s.draw(3) != 0;
    conf.epsilon = s.pick({1e-9, 1e-6, 1e-3});
    conf.maxIterations = s.pick({5, 100, 3});
    conf.nonlinearMethod = s.coin() ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON;
    conf.initialValue = s.pick({1.0, 0.5, -2.0});
    conf.allowIndeterminateEquation = s.coin();
    ts::LogLevel loud = (ts::LogLevel)s.draw(8);
    c.describe([&](std::ostream &o) { o << "history:\n" << script::show(history) << "query (log level " << (int)loud << ", maxIterations " << conf.maxIterations << ", eps " << conf.epsilon << "):\n" << script::show(query); });
    bool matrices = s.coin();
    MatQuery mq, mh;
    if (matrices) {
        mq = genMats(s);
        mh = s.draw(3) ? genMats(s) : mq;
        if (s.coin()) mh.eps = s.pick({1e-9, 1e-3, 0.5, 2.0});
        c.describe([&](std::ostream &o) { o << "matrix history: " << showMats(mh) << "\nmatrix query: " << showMats(mq) << "\n"; });
    }
    // a fresh process
    int fd[2];
    if (pipe(fd)) throw Discard{};
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); throw Discard{}; }
    if (pid == 0) {
        close(fd[0]);
        set(conf);
        interp_lib::Interp q;
        q.keepConfig = true;
        q.run(query);
        std::string t = join(q.log);
        if (matrices) t += "matrices\n" + runMats(mq);
        t += "end\n";
        for (size_t p = 0; p < t.size();) { ssize_t w = write(fd[1], t.data() + p, t.size() - p); if (w <= 0) break; p += (size_t)w; }
        _exit(0);
    }
    close(fd[1]);
    std::string fresh;
    char buf[4096];
    for (ssize_t r; (r = read(fd[0], buf, sizeof buf)) > 0;) fresh.append(buf, (size_t)r);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (fresh.size() < 4 || fresh.compare(fresh.size() - 4, 4, "end\n") != 0) {
        REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the query crashes in a fresh process (status ", st, ")");
        throw Discard{};
    }
    fresh.resize(fresh.size() - 4);
    std::string freshMats;
    if (matrices) {
        size_t at = fresh.rfind("matrices\n");
        freshMats = fresh.substr(at + 9);
        fresh.resize(at);
    }
    // after the history
    {
        ts::Config d;
        ts::Config &g = ts::Config::Get();
        g.Reset();
        d = g;
        REQUIRE(d.throwOnInvalidValue && d.epsilon == 1e-9 && d.logLevel == ts::LogLevel::WARN && d.maxIterations == 100 && d.nonlinearMethod == ts::NonlinearMethod::NEWTON_RAPHSON && d.initialValue == 1.0 && !d.allowIndeterminateEquation, "the defaults are not the documented ones");
    }
    interp_lib::Interp h;
    h.run(history);
    for (size_t i = 0; i < h.log.size(); i++) REQUIRE(h.log[i].find("CONFIGURATION CHANGED") == std::string::npos, "history call ", i, ": ", h.log[i]);
    if (matrices) {
        runMats(mh);
        std::string got = runMats(mq);
        if (got != freshMats) {
            std::istringstream a(freshMats), b(got);
            std::string x, y;
            while (std::getline(a, x)) { std::getline(b, y); REQUIRE(x == y, "matrix query\n fresh process:     ", x, "\n after the history: ", y); }
            fail("the matrix query has other results after the history");
        }
        c.label("matrices");
    }
    {   // whatever the settings were
        ts::Config &g = ts::Config::Get();
        if (s.coin()) g.throwOnInvalidValue = s.coin();
        if (s.coin()) g.epsilon = s.pick({0.0, 1e-15, 1e-3, 1.0, 1e300});
        if (s.coin()) g.logLevel = (ts::LogLevel)s.draw(8);
        if (s.coin()) g.maxIterations = s.pick({0, 1, -1, 99, 101, 500, 1000000, 2147483647});
        if (s.coin()) g.nonlinearMethod = s.coin() ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON;
        if (s.coin()) g.initialValue = s.pick({0.0, -1.0, 0.5, 1e9, 1e-300});
        if (s.coin()) g.allowIndeterminateEquation = s.coin();
    }
    ts::Config::Get().Reset();
    {
        const ts::Config &d = ts::Config::Get();
        REQUIRE(d.throwOnInvalidValue && d.epsilon == 1e-9 && d.logLevel == ts::LogLevel::WARN && d.maxIterations == 100 && d.nonlinearMethod == ts::NonlinearMethod::NEWTON_RAPHSON && d.initialValue == 1.0 && !d.allowIndeterminateEquation, "Reset does not restore the documented defaults");
    }
    ts::Config with = conf;
    with.logLevel = loud;
    set(with);
    interp_lib::Interp q;
    q.keepConfig = true;
    q.run(query);
    for (size_t i = 0; i < q.log.size(); i++) REQUIRE(q.log[i].find("CONFIGURATION CHANGED") == std::string::npos, "query call ", i, ": ", q.log[i]);
    std::string after = join(q.log);
    if (after != fresh) {
        std::istringstream a(fresh), b(after);
        std::string x, y;
        for (int i = 0; std::getline(a, x); i++) { std::getline(b, y); REQUIRE(x == y, "query call ", i, "\n fresh process:     ", x, "\n after the history: ", y); }
        fail("the query has other results after the history");
    }
    ts::Config::Get().Reset();
    // once more, on the objects' own results: the same query again in this process
    ts::Config::Get() = conf;
    interp_lib::Interp again;
    again.keepConfig = true;
    again.run(query);
    REQUIRE(join(again.log) == fresh, "the query gives other results when repeated");
    ts::Config::Get().Reset();
    auto count = [](const std::vector<std::string> &v) { size_t n = 0; for (auto &l : v) n += l.size() > l.find(": ") + 2; return n; };
    c.key = fresh + join(h.log);
    c.nontrivial = count(q.log) >= 2 && count(h.log) >= 5;
    c.label((int)loud >= (int)ts::LogLevel::INFO ? "verbose query" : "quiet query");
    for (auto &l : q.log) if (l.compare(0, 7, "Solve: ") == 0) c.label(l.find('!') != std::string::npos ? "solve threw" : "solve");
}
