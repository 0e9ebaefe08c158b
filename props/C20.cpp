#include "solve.h"
using namespace solve;
const char *const kPropertyId = "C20";
const char *const kRule =
    "a case is a hostile system: 1..4 random equations with any operators and extreme numbers in 1..4 unknowns (square or not, names missing from or surplus in the "
    "table, singular, inconsistent, without a root), extreme or ordinary starts, any method, epsilon, policy and iteration limit, sometimes with a fixed probe solve before and "
    "after; or a point where no Levenberg-Marquardt step descends; or a convex system whose least number of Newton steps is known, with a lower limit, which has to fail. Non-trivial: the solve threw, or returned after iterating.";
const Knobs kKnobs = {60, 4000, false, 15};

namespace {
std::map<std::string, double> probe() { // a small solve whose result must not depend on what happened before
    Snapshot snap;
    ts::Config saved = ts::Config::Get();
    resetConfig();
    ts::SymVec eq = {ts::Var("p") * ts::Var("p") + ts::Var("q") - ts::Num(3), ts::Var("q") - ts::Num(2) + ts::sin(ts::Var("p") - ts::Num(1))};
    std::map<std::string, double> r = asMap(ts::SolveByNewtonRaphson(eq, ts::VarsTable(std::map<std::string, double>{{"p", 1.25}, {"q", 1.5}})));
    auto m = asMap(ts::SolveByLM(eq, ts::VarsTable(std::map<std::string, double>{{"p", 1.1}, {"q", 1.9}})));
    r["lm p"] = m["p"];
    r["lm q"] = m["q"];
    ts::Config::Get() = saved;
    snap.check("around the probe");
    return r;
}
model::E hostile(Src &s, const Names &names) {
    model::GenOpts o;
    o.vars = names;
    o.maxSize = 8;
    o.bitOps = s.draw(12) == 11;
    o.numStyle = (int)s.draw(3);
    o.tame = s.draw(3) == 0;
    using model::Op;
    auto v = [&] { return model::var(s.pick(names)); };
    auto n = [&](double x) { return model::num(x); };
    switch (s.draw(14)) {
    case 0: return add(mul(v(), v()), n(1));                                       // no real root
    case 1: return model::un(Op::LOG, v());
    case 2: return model::un(Op::EXP, mul(v(), v()));                              // overflows, never zero
    case 3: return sub(model::un(Op::SQRT, v()), n((double)s.range(-3, 3)));
    case 4: return model::bin(Op::DIV, n(1), v());
    case 5: return model::bin(Op::POW, v(), n(s.pick({0.5, -1.0, 1.0 / 3, 100.0, -0.5})));
    case 6: return n(s.pick({0.0, 1.0, 1e308, -3.0}));                            // no variable at all
    case 7: return sub(v(), v());
    case 8: return model::un(Op::TAN, mul(v(), n(1e3)));
    case 9: return mul(n(s.pick({1e-300, 1e300, 1e-12, 1e154})), sub(v(), n(2)));
    default: return model::genExpr(s, o, (int)s.range(1, 8));
    }
}
struct Capture { // std::cout into a string
    std::ostringstream to;
    std::streambuf *old;
    Capture() : old(std::cout.rdbuf(to.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
    int iterations() const {
        int n = 0;
        std::string t = to.str();
        for (size_t at = 0; (at = t.find("iteration times", at)) != std::string::npos; at++) n++;
        return n;
    }
};
// Systems on which a Newton step is known to make little progress, so that the least number of iterations is known: convex increasing f,
// started on the right of the root. The root is never passed, and x^n - a shrinks x at most by (n-1)/n per step, e^x - a lowers x at most by 1.
// A Levenberg-Marquardt step with step length <= 1 is no longer than the Newton step (one unknown).
void tooFewIterations(Case &c) {
    Src &s = c.s;
    ts::Config &cfg = ts::Config::Get();
    cfg.nonlinearMethod = s.coin() ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON;
    cfg.allowIndeterminateEquation = s.coin();
    cfg.throwOnInvalidValue = s.draw(4) != 0;
    Method m = (Method)s.draw(3);
    bool lm = m == LM || (m == BY_CONFIG && cfg.nonlinearMethod == ts::NonlinearMethod::LM);
    Names pool = {"x", "y", "z"};
    int n = lm ? 1 : (int)s.range(1, 3);
    if (!lm && s.draw(6) == 5) n = (int)s.range(4, 20);
    while ((int)pool.size() < n) pool.push_back("v" + std::to_string(pool.size()));
    Names names(pool.begin(), pool.begin() + n);
    std::vector<model::E> f;
    std::vector<double> start;
    double need = 0;
    for (int i = 0; i < n; i++) {
        model::E x = model::var(names[i]);
        double rhs = s.pick({1.0, 2.0, 10.0, 0.5}), x0, least;
        if (s.draw(3) == 2) {
            x0 = s.unit() * 150 + 20;
            least = x0 - std::log(rhs) - 1;
            f.push_back(sub(model::un(model::Op::EXP, x), model::num(rhs)));
        } else {
            double p = (double)s.range(2, 12);
            x0 = std::pow(10, s.unit() * 7 + 1);
            least = std::log(x0 / (1.1 * std::pow(rhs, 1 / p))) / std::log(p / (p - 1));
            f.push_back(sub(model::bin(model::Op::POW, x, model::num(p)), model::num(rhs)));
        }
        start.push_back(x0);
        need = std::max(need, least);
    }
    for (int i = 1; i < n; i++) if (s.coin()) f[(size_t)i] = add(f[(size_t)i], f[s.draw((uint64_t)i)]); // does not change Newton's steps
    int limit = (int)(need - 4);
    if (limit < 0) throw Discard{};
    limit = (int)s.range(0, limit);
    if (s.coin()) limit = std::max(0, (int)(need - 4) - (int)s.draw(4));
    cfg.maxIterations = limit;
    cfg.epsilon = s.pick({1e-9, 1e-6, 1e-12});
    if (s.coin()) cfg.logLevel = ts::LogLevel::INFO;
    c.describe([&](std::ostream &q) { q << show(f) << text(m) << " from " << show(names, start) << " needs " << need << " iterations; " << showConfig(); });
    c.key = show(f) + text(m) + show(names, start) + std::to_string(limit);
    ts::SymVec sys = toSystem(f, &s);
    ts::VarsTable t = toTable(s, names, start);
    Snapshot snap;
    Capture cap;
    bool threw = false;
    try {
        ts::VarsTable got = run(m, sys, t);
        failf("the solve returned although it needs at least ", (int)need, " iterations and ", limit, " are allowed");
    } catch (const std::runtime_error &) { threw = true; }
    snap.check("during the solve");
    REQUIRE(cap.iterations() <= limit + 2, cap.iterations(), " iterations were made, ", limit, " are allowed");
    c.nontrivial = true;
    c.label(lm ? "too few iterations LM" : "too few iterations NR");
}
// Levenberg-Marquardt at a point where the residual is not 0 but its gradient is: no step descends, so the limit, however large, has to end the solve.
void stuck(Case &c) {
    Src &s = c.s;
    ts::Config &cfg = ts::Config::Get();
    cfg.nonlinearMethod = ts::NonlinearMethod::LM;
    cfg.throwOnInvalidValue = s.draw(4) != 0;
    cfg.allowIndeterminateEquation = s.coin();
    cfg.maxIterations = s.coin() ? (int)s.range(250, 1200) : (int)s.range(0, 400);
    double at = (double)s.range(-3, 3), up = (double)s.range(1, 20) / 4;
    if (s.coin()) at = 0;
    model::E x = model::var("x"), d = at == 0 ? x : sub(x, model::num(at)), e;
    switch (s.draw(5)) {
    case 0: e = add(model::bin(model::Op::POW, d, model::num(2)), model::num(up)); break;
    case 1: e = add(mul(d, d), model::num(up)); break;
    case 2: e = mul(model::num(up), model::un(model::Op::EXP, mul(d, d))); break;
    case 3: e = add(model::un(model::Op::COS, d), model::num(up)); break;
    default: e = sub(model::num(-up), model::bin(model::Op::POW, d, model::num(4))); break;
    }
    Method m = s.coin() ? LM : BY_CONFIG;
    Names names = {"x"};
    std::vector<double> start = {at};
    c.describe([&](std::ostream &q) { q << show({e}) << text(m) << " from " << show(names, start) << " " << showConfig(); });
    c.key = show({e}) + text(m) + show(names, start) + std::to_string(cfg.maxIterations);
    ts::SymVec sys = toSystem({e}, &s);
    ts::VarsTable t = toTable(s, names, start);
    Snapshot snap;
    try {
        ts::VarsTable got = run(m, sys, t);
        fail("the solve returned although the equation is far from 0 wherever it may have gone");
    } catch (const std::runtime_error &) {}
    snap.check("during the solve");
    c.nontrivial = true;
    c.label("stuck LM");
}
} // namespace

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    if (s.draw(20) == 19) return stuck(c);
    if (s.draw(6) == 5) return tooFewIterations(c);
    const Names pool = {"x", "y", "z", "a"};
    int n = (int)s.range(1, s.draw(3) ? 2 : 4), rows = s.draw(3) ? n : (int)s.range(1, 4);
    Names names(pool.begin(), pool.begin() + n), inEq = names;
    if (s.draw(10) == 9) inEq.push_back("missing");
    std::vector<model::E> eq;
    for (int i = 0; i < rows; i++) {
        model::E e = hostile(s, inEq);
        if (i && s.draw(6) == 5) e = eq[s.draw((uint64_t)i)]; // repeated equation: singular
        if (i && s.draw(8) == 7) e = add(mul(model::num(2), eq[s.draw((uint64_t)i)]), model::num((double)s.range(0, 1)));
        eq.push_back(e);
    }
    std::vector<double> start(n);
    int style = (int)s.draw(4);
    for (auto &v : start) {
        v = style == 0 ? (double)s.range(-3, 3) : style == 1 ? s.unit() * 8 - 4 : style == 2 ? (s.coin() ? 1 : -1) * model::genNumber(s, 2) : s.pick({0.0, -0.0, 1e308, -1e308, 1e-308, 1.0, 1e155, 5e-324});
        if (s.draw(200) == 199) v = s.pick({(double)INFINITY, -(double)INFINITY, std::nan("")});
    }
    ts::Config &cfg = ts::Config::Get();
    cfg.epsilon = s.pick({1e-9, 0.0, 1e-300, 1e-3, 1.0, 1e9, 1e-15});
    cfg.throwOnInvalidValue = s.draw(3) != 0;
    cfg.allowIndeterminateEquation = s.coin();
    cfg.nonlinearMethod = s.coin() ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON;
    cfg.initialValue = s.pick({1.0, 0.0, -2.0, 1e200, -1e-200});
    Method m = (Method)s.draw(4);
    bool lm = m == LM || ((m == BY_CONFIG || m == NO_TABLE) && cfg.nonlinearMethod == ts::NonlinearMethod::LM);
    int bulk = 0;
    for (auto &e : eq) bulk += model::size(e);
    cfg.maxIterations = s.pick({100, 0, 1, 7, 30, 500});
    if (lm && cfg.maxIterations > 1) cfg.maxIterations = bulk > 30 ? 2 : s.draw(15) || bulk > 12 ? s.pick({2, 4, 3}) : 20;
    std::set<std::string> used;
    for (auto &e : eq) model::vars(e, used);
    if (m == NO_TABLE && used.empty()) throw Discard{};
    c.describe([&](std::ostream &q) { q << show(eq) << text(m) << " from " << show(names, start) << " " << showConfig(); });
    c.key = show(eq) + text(m) + show(names, start) + showConfig();
    bool probing = s.draw(8) == 7;
    std::map<std::string, double> p0;
    if (probing) p0 = probe();
    ts::SymVec sys = toSystem(eq, &s), keep = toSystem(eq);
    ts::VarsTable t = toTable(s, names, start);
    std::map<std::string, double> before = asMap(t);
    Snapshot snap;
    bool threw = false;
    try {
        ts::VarsTable got = run(m, sys, t);
        consistent(got);
        c.label(lm ? "LM returned" : "NR returned");
        c.nontrivial = asMap(got) != before;
    } catch (const ts::MathError &e) {
        threw = true;
        REQUIRE(std::string(e.what()).size() > 0, "empty message");
        c.label(lm ? "LM threw MathError" : "NR threw MathError");
    } catch (const std::runtime_error &e) {
        threw = true;
        c.label(lm ? "LM threw runtime_error" : "NR threw runtime_error");
    }
    if (threw) c.nontrivial = true;
    snap.check("during the solve");
    REQUIRE(sys == keep, "the equations changed");
    for (int i = 0; i < rows; i++) sys[(size_t)i]->CheckParent();
    consistent(t);
    auto after = asMap(t);
    REQUIRE(after.size() == before.size(), "the table changed");
    for (auto &v : before) REQUIRE(model::sameBits(after.at(v.first), v.second) || v.second != v.second, "the starting value of ", v.first, " changed");
    if (probing) {
        auto p1 = probe();
        REQUIRE(p0 == p1, "a later solve gives another result after this one");
        c.label("probed");
    }
    if (threw && s.coin()) { // the same failing call fails again, or at least ends again
        bool second = false;
        try { run(m, sys, t); } catch (const std::runtime_error &) { second = true; }
        REQUIRE(second, "the solve threw, and returned when repeated");
    }
}
