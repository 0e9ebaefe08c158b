#include "solve.h"
using namespace solve;
const char *const kPropertyId = "C19";
const char *const kRule =
    "a case is a system of 1..4 random equations (sometimes of 5..24 simple ones, most of them solved at the start), shifted so that a chosen point is a root (or not), started at that root, near it or anywhere, with any method, "
    "epsilon, iteration limit and invalid-value policy; whenever the solver returns, the residuals are recomputed by the library and by the reference model. "
    "Non-trivial: the solver returned after starting away from a root.";
const Knobs kKnobs = {60, 4000, false, 10};

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    Names pool = {"x", "y", "z", "b", "a"};
    int n = (int)s.range(1, s.draw(3) ? 2 : 4), rows = s.draw(10) == 9 ? (int)s.range(1, 4) : n;
    bool wide = s.draw(16) == 15; // many equations of one or two variables each
    if (wide) {
        rows = n = (int)s.range(5, 24);
        for (int i = 5; i < n; i++) pool.push_back("v" + std::to_string(i));
    }
    Names names(pool.begin(), pool.begin() + n);
    for (int i = n - 1; i > 0; i--) std::swap(names[i], names[s.draw((uint64_t)i + 1)]);
    model::GenOpts o;
    o.vars = names;
    o.tame = true;
    o.maxSize = 6;
    std::vector<double> root(n), start(n);
    model::Env env;
    for (int i = 0; i < n; i++) env[names[i]] = root[i] = s.draw(3) ? (double)s.range(-3, 3) / 2 : s.unit() * 6 - 3;
    bool planted = s.draw(5) != 4;
    std::vector<model::E> eq;
    for (int i = 0; i < rows; i++) {
        model::E x = model::var(names[(size_t)(i % n)]), e;
        if (!wide) e = model::genExpr(s, o, (int)s.range(1, 6));
        else switch (s.draw(4)) {
            case 0: e = mul(model::num((double)s.range(1, 4)), x); break;
            case 1: e = mul(x, mul(x, x)); break;
            case 2: e = model::un(model::Op::EXP, x); break;
            default: e = add(x, mul(model::num(0.25), model::var(s.pick(names))));
        }
        if (!wide && s.coin()) e = add(mul(model::num((double)s.range(1, 4)), model::var(names[(size_t)(i % n)])), e); // more often solvable
        if (planted) {
            double v = model::eval(e, env).v;
            if (std::isfinite(v) && v != 0) e = s.coin() ? sub(e, model::num(v)) : add(e, model::num(-v));
        }
        eq.push_back(e);
    }
    int away = (int)s.draw(4);
    if (wide) { // most variables start at the root
        away = 4;
        for (int i = 0; i < n; i++) start[i] = root[i];
        for (int k = (int)s.range(0, 3); k > 0; k--) start[s.draw((uint64_t)n)] += s.pick({0.5, -0.5, 2.0, 1e-3});
        c.label("many equations");
    } else for (int i = 0; i < n; i++) start[i] = away == 0 ? root[i] : away == 1 ? root[i] + (s.unit() - 0.5) * 0.2 : s.unit() * 10 - 5;
    ts::Config &cfg = ts::Config::Get();
    cfg.epsilon = s.pick({1e-9, 1e-6, 1e-3, 1e-12, 0.1, 0.0});
    cfg.maxIterations = s.pick({100, 20, 5, 1, 0, 40});
    cfg.throwOnInvalidValue = s.draw(4) != 0;
    cfg.allowIndeterminateEquation = s.draw(3) == 2;
    cfg.nonlinearMethod = s.coin() ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON;
    cfg.initialValue = s.pick({1.0, 0.0, -2.0, 0.5, 3.25});
    Method m = (Method)s.draw(4);
    bool lm = m == LM || ((m == BY_CONFIG || m == NO_TABLE) && cfg.nonlinearMethod == ts::NonlinearMethod::LM);
    // a line search that fails costs 1075 evaluations, so most LM runs get a small limit
    int bulk = 0;
    for (auto &e : eq) bulk += model::size(e);
    if (lm && cfg.maxIterations > 5) cfg.maxIterations = bulk > 40 ? (wide ? 1 : 3) : s.draw(20) || bulk > 15 ? s.pick({6, 8, 3}) : 25;
    std::set<std::string> used;
    for (auto &e : eq) model::vars(e, used);
    if (m == NO_TABLE && used.empty()) throw Discard{};
    if (s.draw(10) == 9) { // a limit that the residual at the start equals exactly
        model::Env at;
        if (m == NO_TABLE) for (auto &v : used) at[v] = cfg.initialValue;
        else for (int i = 0; i < n; i++) at[names[i]] = start[i];
        double worst = 0;
        for (auto &e : eq) { double v = std::fabs(model::eval(e, at).v); worst = v > worst ? v : worst; }
        if (worst > 0 && worst < 100) { cfg.epsilon = worst; c.label("residual equals epsilon"); }
    }
    c.describe([&](std::ostream &q) { q << show(eq) << text(m) << " from " << show(names, start) << " " << showConfig(); });
    c.key = show(eq) + text(m) + show(names, start) + showConfig();
    ts::SymVec sys = toSystem(eq, &s), keep = toSystem(eq);
    ts::VarsTable t = toTable(s, names, start);
    auto before = asMap(t);
    Snapshot snap;
    bool returned = false;
    ts::VarsTable got({{"none", 0.0}});
    try {
        got = run(m, sys, t);
        returned = true;
    } catch (const std::runtime_error &) { c.label("threw"); }
    snap.check("during the solve");
    REQUIRE(sys == keep, "the equations changed");
    consistent(t);
    REQUIRE(asMap(t) == before, "the table of starting values changed");
    // a root to start from is a root to return
    double eps = cfg.epsilon;
    auto residual = [&](const model::Env &at, bool &trust) {
        double worst = 0;
        for (auto &e : eq) {
            model::Eval v = model::eval(e, at);
            if (!std::isfinite(v.v) || v.invalid) { trust = false; return 0.0; }
            worst = std::max(worst, std::fabs(v.v));
        }
        return worst;
    };
    model::Env from;
    if (m == NO_TABLE) for (auto &v : used) from[v] = cfg.initialValue;
    else for (int i = 0; i < n; i++) from[names[i]] = start[i];
    bool trust = true;
    double r0 = residual(from, trust);
    bool square = rows == (int)from.size();
    bool atRoot = trust && r0 < eps * 0.999;
    // the Jacobian is built first, so an operator without a derivative may still be refused
    if (atRoot && square) {
        REQUIRE(returned, "starting at a root threw an exception");
        c.label("started at a root");
    }
    if (!returned) return;
    c.label(lm ? "LM returned" : "NR returned");
    c.nontrivial = !atRoot;
    consistent(got);
    std::set<std::string> want, have(got.Vars().begin(), got.Vars().end());
    if (m == NO_TABLE) want = used;
    else want.insert(names.begin(), names.end());
    REQUIRE(have == want, "the returned table has other variables");
    if (m != NO_TABLE) REQUIRE(got.Vars() == t.Vars(), "the returned table lists its variables in another order");
    model::Env at;
    for (auto &v : got) {
        if (cfg.throwOnInvalidValue) REQUIRE(std::isfinite(v.second), v.first, " is ", v.second);
        at[v.first] = v.second;
    }
    for (size_t i = 0; i < eq.size(); i++) {
        double lib = valueAt(sys[i], at);
        REQUIRE(std::fabs(lib) < eps, "equation ", i, " has the residual ", lib, " at the returned ", model::showEnv(at));
        model::Bounded b = model::evalBounded(eq[i], at, 0);
        if (b.ok) REQUIRE(std::fabs((double)b.v) <= eps * (1 + 1e-9) + (double)b.err, "equation ", i, " is really ", (double)b.v, " at the returned ", model::showEnv(at));
    }
    if (atRoot) for (auto &v : from) REQUIRE(at[v.first] == v.second, "started at a root with ", v.first, " = ", v.second, " but returned ", at[v.first]);
    // repeating the solve from the returned point changes nothing
    if (s.draw(4) == 3 && square && m != NO_TABLE) {
        ts::VarsTable again = run(m, sys, got);
        REQUIRE(asMap(again) == asMap(got), "solving again from the returned root moved it");
    }
}
