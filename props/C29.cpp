#include "bridge.h"
#include "scriptgen.h"
#define INTERP_NS interp_lib
#include "interp.inc"
#include <atomic>
#include <thread>
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C29";
const char *const kRule =
    "a case is 2..4 threads; each runs a random script of up to 12 API calls on objects of its own, then up to 10 reading operations on objects all of them share (printing, evaluating, comparing, copying, "
    "differentiating and substituting const expressions, matrices, tables; solving const systems); afterwards everything is run once more by one thread alone, and the logs must agree bit for bit; "
    "ThreadSanitizer watches every access. A case runs in a fresh process; in a quarter of them the threads are the first users of the library. Non-trivial: two or more threads with five or more results each.";
const Knobs kKnobs = {60, 1200, true, 6};

namespace {
struct Discarding : std::streambuf { // keeps no state
    int overflow(int ch) override { return ch == EOF ? 0 : ch; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
typedef interp_lib::Interp I;
struct Shared {
    std::vector<ts::Node> trees;
    std::vector<ts::Mat> mats;
    std::vector<ts::SymMat> syms;
    std::vector<ts::SymVec> systems;
    std::vector<ts::VarsTable> tables;
};
struct Read { int op, a, b; double x; };
enum { PRINT, STREAM, VPA, EQUAL, NAMES, COPY, DIFF, SUBS, SUBS_NODE, COMBINE, SIMPLER, PARENT, MAT_PRINT, MAT_SUM, MAT_PRODUCT, MAT_INVERSE, MAT_SOLVE, MAT_MEASURE, SYM_PRINT, SYM_PRODUCT, SYM_TOMAT, SYM_VARS, JACOBI, TABLE_LOOK, TABLE_PRINT, TABLE_COPY, SOLVE_IT, READS };
std::string readOne(const Shared &h, const Read &r) {
    std::string out;
    const ts::Node &n = h.trees[(size_t)r.a % h.trees.size()], &m = h.trees[(size_t)r.b % h.trees.size()];
    const ts::Mat &p = h.mats[(size_t)r.a % h.mats.size()], &q = h.mats[(size_t)r.b % h.mats.size()];
    const ts::SymMat &u = h.syms[(size_t)r.a % h.syms.size()], &v = h.syms[(size_t)r.b % h.syms.size()];
    const ts::SymVec &w = h.systems[(size_t)r.a % h.systems.size()];
    const ts::VarsTable &t = h.tables[(size_t)r.b % h.tables.size()];
    try {
        switch (r.op) {
        case PRINT: out = n->ToString(); break;
        case STREAM: { std::ostringstream o; o << n << p << t; out = o.str(); break; }
        case VPA: out = I::num(ts::Subs(n, t)->Vpa()); out += I::num(n->Vpa()); break;
        case EQUAL: out = std::to_string(n->Equal(m)) + std::to_string(m->Equal(n)); break;
        case NAMES: for (auto &k : n->GetAllVarNames()) out += k + " "; break;
        case COPY: out = ts::Clone(n)->ToString(); break;
        case DIFF: out = ts::Diff(n, "x")->ToString(); break;
        case SUBS: out = ts::Subs(n, t)->ToString(); break;
        case SUBS_NODE: out = ts::Subs(n, "x", m)->ToString(); break;
        case COMBINE: out = ((n + m) * n / m - ts::sin(n))->ToString(); break;
        case SIMPLER: { ts::Node k = ts::Clone(n); ts::Simplify(k); out = k->ToString(); break; }
        case PARENT: n->CheckParent(); break;
        case MAT_PRINT: out = p.ToString() + q.ToString(); break;
        case MAT_SUM: if (p.Rows() == q.Rows() && p.Cols() == q.Cols()) out = I::text(p + q) + I::text(p - q) + std::to_string(p == q); break;
        case MAT_PRODUCT: if (p.Cols() == q.Rows()) out = I::text(p * q) + I::text(p.Transpose() * r.x); break;
        case MAT_INVERSE: if (p.Rows() == p.Cols()) out = I::text(p.Inverse()); break;
        case MAT_SOLVE: out = I::text(ts::SolveLinear(p, ts::Vec(p.Rows(), r.x))); break;
        case MAT_MEASURE: out = I::num(p.NormInfinity()) + I::num(p.Min()) + (p.Cols() == 1 ? I::num(p.Norm2()) : ""); break;
        case SYM_PRINT: out = u.ToString(); break;
        case SYM_PRODUCT: if (u.Cols() == v.Rows()) out = (u * v).ToString(); break;
        case SYM_TOMAT: out = I::text(u.Clone().Subs(t).ToMat()); break;
        case SYM_VARS: for (auto &k : u.GetAllVarNames()) out += k + " "; out += std::to_string(u == v); break;
        case JACOBI: out = ts::Jacobian(w, t.Vars()).ToString(); break;
        case TABLE_LOOK: for (const char *k : {"x", r.a & 1 ? "y" : "a", "absent"}) { out += std::to_string(t.Has(k)); out += I::num(t[k]); } break;
        case TABLE_PRINT: out = I::text(t); break;
        case TABLE_COPY: { ts::VarsTable k(t); out = I::text(k) + std::to_string(k == t); break; }
        case SOLVE_IT: {
            std::map<std::string, double> start;
            for (auto &k : w.GetAllVarNames()) start[k] = r.x;
            if (start.empty()) break;
            if (r.b & 4) { ts::VarsTable from(start); out = I::text(ts::Solve(w, from)); }
            else out = I::text(ts::Solve(w));
            break;
        }
        }
    } catch (const ts::MathError &e) { out += "!MathError " + std::string(e.what());
    } catch (const std::exception &e) { out += "!" + std::string(e.what()); }
    return std::to_string(r.op) + ": " + I::cut(out);
}
struct Plan { script::Script own; std::vector<Read> reads; };
std::vector<std::string> perform(const Plan &p, const Shared &h, bool readsFirst) {
    std::vector<std::string> log, first;
    auto reading = [&](std::vector<std::string> &l) { for (auto &r : p.reads) l.push_back(readOne(h, r)); };
    if (readsFirst) reading(first);
    I own;
    own.keepConfig = true;
    own.ownOutput = false;
    own.run(p.own);
    if (!readsFirst) reading(first);
    log = own.log;
    log.insert(log.end(), first.begin(), first.end());
    return log;
}
} // namespace

void property(Case &c) {
    Src &s = c.s;
    static Discarding nowhere;
    struct Back { std::streambuf *b; ~Back() { std::cout.rdbuf(b); } } back{std::cout.rdbuf(&nowhere)};
    std::vector<Plan> plans((size_t)s.range(2, 4));
    // cold: nothing of the library has been used (not even its configuration read) before the threads start
    bool cold = s.draw(4) == 3;
    for (auto &p : plans) {
        p.own = script::generate(s, 12, false);
        int k = cold ? 0 : (int)s.draw(11);
        for (int i = 0; i < k; i++) p.reads.push_back({(int)s.draw(READS), (int)s.draw(8), (int)s.draw(8), (double)s.range(-3, 3) / 2});
    }
    if (s.draw(4) == 3) for (auto &p : plans) p = plans[0]; // everyone the same
    // what they share: texts, so that the library's first use is not here but in the threads whenever possible
    GenOpts o;
    o.vars = {"x", "y"};
    o.maxSize = 10;
    o.tame = s.coin();
    std::vector<E> trees;
    for (int i = cold ? 0 : (int)s.range(1, 3); i > 0; i--) trees.push_back(genExpr(s, o));
    Shared h;
    for (auto &e : trees) h.trees.push_back(toNode(e));
    for (int i = 0; i < 3 && !cold; i++) {
        ts::Mat m(i == 0 ? 2 : (int)s.range(1, 3), i == 0 ? 2 : (int)s.range(1, 3));
        for (int a = 0; a < m.Rows(); a++) for (int b = 0; b < m.Cols(); b++) m.Value(a, b) = (double)s.range(-4, 4);
        h.mats.push_back(std::move(m));
    }
    for (int i = 0; i < 2 && !cold; i++) {
        ts::SymMat m(i == 0 ? 2 : (int)s.range(1, 2), 2);
        for (int a = 0; a < m.Rows(); a++) for (int b = 0; b < m.Cols(); b++) m.Value(a, b) = toNode(genExpr(s, o, 2));
        h.syms.push_back(std::move(m));
    }
    if (!cold) {
        auto x = [] { return ts::Var("x"); };
        auto y = [] { return ts::Var("y"); };
        auto k = [](double d) { return ts::Num(d); };
        ts::SymVec a(2), b(1), d(1);
        a[0] = x() + y() - k(3);
        a[1] = x() * y() - k((double)s.range(-2, 2));
        b[0] = (x() ^ k(2)) - k((double)s.range(-1, 3));
        d[0] = toNode(genExpr(s, o, 4)) - x();
        h.systems.push_back(std::move(a));
        h.systems.push_back(std::move(b));
        h.systems.push_back(std::move(d));
    }
    if (!cold) {
        h.tables.push_back(ts::VarsTable(std::map<std::string, double>{{"x", (double)s.range(-3, 3)}, {"y", 0.5}}));
        h.tables.push_back(ts::VarsTable(std::map<std::string, double>{{"a", 1}, {"x", -1.5}, {"z", 2}}));
        ts::Config &g = ts::Config::Get();
        g.Reset();
        g.throwOnInvalidValue = s.draw(3) != 0;
        g.maxIterations = s.pick({6, 3, 40});
        g.nonlinearMethod = g.maxIterations <= 6 && s.coin() ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON;
        g.initialValue = s.pick({1.0, 0.5, -2.0});
        g.allowIndeterminateEquation = s.draw(3) == 2;
        g.logLevel = s.pick({ts::LogLevel::OFF, ts::LogLevel::WARN, ts::LogLevel::TRACE});
    }
    bool readsFirst = s.coin();
    c.describe([&](std::ostream &q) {
        q << plans.size() << " threads, ";
        if (cold) q << "first use of the library, default configuration\n";
        else q << "method " << (int)ts::Config::Get().nonlinearMethod << ", maxIterations " << ts::Config::Get().maxIterations << ", log level " << (int)ts::Config::Get().logLevel << "\n";
        for (auto &p : plans) { q << "thread:\n" << script::show(p.own) << "reads:"; for (auto &r : p.reads) q << " " << r.op << "(" << r.a << "," << r.b << "," << r.x << ")"; q << "\n"; }
        q << "shared:";
        for (auto &e : trees) q << " " << show(e);
        q << "\n";
    });
    const int rounds = 3;
    std::vector<std::vector<std::vector<std::string>>> got(plans.size(), std::vector<std::vector<std::string>>(rounds));
    std::vector<std::string> escaped(plans.size());
    std::atomic<int> ready{0};
    auto body = [&](size_t i) {
        for (int r = 0; r < rounds; r++) {
            ready.fetch_add(1); // start every round together
            while (ready.load() < (int)plans.size() * (r + 1)) std::this_thread::yield();
            try { got[i][(size_t)r] = perform(plans[i], h, readsFirst); }
            catch (const std::exception &e) { escaped[i] = e.what(); }
        }
    };
    {
        std::vector<std::thread> th;
        for (size_t i = 0; i < plans.size(); i++) th.emplace_back(body, i);
        for (auto &t : th) t.join();
    }
    size_t useful = 0;
    for (size_t i = 0; i < plans.size(); i++) {
        REQUIRE(escaped[i].empty(), "thread ", i, ": ", escaped[i]);
        std::vector<std::string> alone = perform(plans[i], h, readsFirst);
        size_t n = 0;
        for (int r = 0; r < rounds; r++) {
            auto &l = got[i][(size_t)r];
            REQUIRE(l.size() == alone.size(), "thread ", i, " made ", l.size(), " results instead of ", alone.size());
            for (size_t k = 0; k < l.size(); k++) REQUIRE(l[k] == alone[k], "thread ", i, " call ", k, "\n in parallel: ", l[k], "\n alone:       ", alone[k]);
        }
        for (auto &l : alone) { n += l.size() > l.find(": ") + 2; REQUIRE(l.find("CONFIGURATION CHANGED") == std::string::npos, l); c.key += l; }
        useful += n >= 5;
    }
    c.nontrivial = useful >= 2;
    c.label(std::to_string(plans.size()) + (cold ? " threads, first use" : " threads"));
    ts::Config::Get().Reset();
}
