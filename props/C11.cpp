#include "bridge.h"
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C11";
const char *const kRule =
    "a case is one random expression with (2/3) or without a planted &, | or % at a random depth, differentiated by a random variable (const, moved, "
    "k-th), put into a random equation vector for Jacobian, Newton-Raphson, Levenberg-Marquardt and Solve. Expected: std::runtime_error exactly when "
    "such an operator is present (Diff, Jacobian) and arguments unchanged. Non-trivial: the operator is present below the root or in a system of two or more equations.";
const Knobs kKnobs = {30, 20000, false};

static E plantBit(Src &s, const E &e, int depth) {
    if (depth == 0 || e->op == Op::NUM || e->op == Op::VAR) {
        E a = s.draw(3) ? num((double)s.range(0, 7)) : var(s.pick({std::string("x"), std::string("y"), std::string("z")}));
        E b = s.draw(3) == 0 ? num((double)s.range(1, 7)) : e;
        Op o = s.pick({Op::AND, Op::OR, Op::MOD});
        return s.coin() ? bin(o, a, b) : bin(o, b, a);
    }
    if (!e->r) return un(e->op, plantBit(s, e->l, depth - 1));
    return s.coin() ? bin(e->op, plantBit(s, e->l, depth - 1), e->r) : bin(e->op, e->l, plantBit(s, e->r, depth - 1));
}
static bool containsVar(const E &e) { return !vars(e).empty(); }

template <class F> static int outcome(F &&f, std::string &what) { // 0 returned, 1 runtime_error
    try {
        f();
        return 0;
    } catch (const std::runtime_error &x) {
        what = x.what();
        return 1;
    }
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    ts::Config::Get().maxIterations = (int)s.range(0, 6);
    GenOpts o;
    o.vars = {"x", "y"};
    o.tame = s.coin();
    o.maxSize = 14;
    E e = genExpr(s, o);
    bool bad = s.draw(3) != 0;
    int depth = (int)s.draw(6);
    if (bad) {
        if (s.draw(4) == 0) { // right below a position a differentiation rule may treat as constant
            E leaf = plantBit(s, s.coin() ? num(2) : var("y"), 0);
            switch (s.draw(8)) {
            case 0: e = bin(Op::POW, e, leaf); break;
            case 1: e = bin(Op::MUL, leaf, e); break;
            case 2: e = bin(Op::DIV, e, leaf); break;
            case 3: e = bin(Op::POW, leaf, e); break;
            case 4: e = un((Op)((int)Op::POS + (int)s.draw(13)), leaf); break;
            case 5: e = bin(Op::MUL, num(0), leaf); break;
            case 6: e = bin(Op::POW, bin(Op::POW, var("x"), leaf), num(2)); break;
            default: e = bin(Op::ADD, leaf, e);
            }
        } else e = plantBit(s, e, depth);
    }
    bool pol = s.draw(4) != 0;
    ts::Config::Get().throwOnInvalidValue = pol;
    std::string v = s.pick({std::string("x"), std::string("y"), std::string("w"), std::string("z")});
    int k = s.draw(4) ? 1 : (int)s.range(2, 3);
    if (!bad && size(e) > 8) k = 1;
    c.describe([&](std::ostream &q) { q << (bad ? "non-differentiable " : "differentiable ") << show(e) << " by " << v << " k=" << k; });
    c.key = show(e) + v;
    ts::Node n = toNode(e, &s), keep = toNode(e);
    std::string what;
    auto check = [&](const char *call, int got) {
        REQUIRE(n->Equal(keep), call, " changed its argument ", show(e));
        REQUIRE(got == bad, call, got ? " threw " + what : std::string(" returned"), " for ", show(e), " by ", v);
    };
    check("Diff", outcome([&] { ts::Diff(n, v, k); }, what));
    check("Diff of a temporary", outcome([&] { ts::Diff(ts::Clone(n), v, k); }, what));
    // in a system
    int m = (int)s.range(1, 3), at = (int)s.draw((uint64_t)m);
    ts::SymVec f(m);
    std::vector<E> eqs(m);
    for (int i = 0; i < m; i++) {
        eqs[i] = i == at ? e : genExpr(s, o, (int)s.draw(3));
        f[i] = toNode(eqs[i]);
    }
    std::vector<std::string> names = {"x", "y"};
    if (s.coin()) names.push_back("z");
    if (s.draw(4) == 0) names = {s.pick({std::string("x"), std::string("w")})};
    std::string before = f.ToString();
    auto unchanged = [&](const char *call) {
        REQUIRE(f.ToString() == before, call, " changed the equations");
        for (int i = 0; i < m; i++) REQUIRE(sameNode(f[i], eqs[i]), call, " changed equation ", i);
        REQUIRE(ts::Config::Get().throwOnInvalidValue == pol, call, " changed the configuration");
    };
    int got = outcome([&] { ts::Jacobian(f, names); }, what);
    unchanged("Jacobian");
    REQUIRE(got == bad, "Jacobian ", got ? "threw " + what : std::string("returned"), " with equation ", show(e));
    if (bad) {
        ts::VarsTable t(std::vector<std::string>{"x", "y", "z"}, (double)s.range(-2, 3));
        std::string tt = t.ToString();
        int r = 0;
        r = outcome([&] { ts::SolveByNewtonRaphson(f, t); }, what);
        unchanged("SolveByNewtonRaphson");
        REQUIRE(r == 1, "SolveByNewtonRaphson returned for a system with ", show(e));
        r = outcome([&] { ts::SolveByLM(f, t); }, what);
        unchanged("SolveByLM");
        REQUIRE(r == 1, "SolveByLM returned for a system with ", show(e));
        ts::Config::Get().nonlinearMethod = s.coin() ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON;
        r = outcome([&] { ts::Solve(f, t); }, what);
        REQUIRE(r == 1, "Solve returned for a system with ", show(e));
        bool any = false;
        for (auto &q : eqs) any = any || containsVar(q);
        if (any) {
            r = outcome([&] { ts::Solve(f); }, what);
            REQUIRE(r == 1, "Solve without a table returned for a system with ", show(e));
        }
        unchanged("Solve");
        REQUIRE(t.ToString() == tt, "solving changed the table");
    }
    // everything stays usable with unchanged value
    Env env = genEnv(s, {"x", "y", "z"}, 0);
    double g = valueAt(n, env), w = eval(e, env).v;
    REQUIRE(sameBits(g, w) || (g != g && w != w), show(e), " evaluates to ", g, " instead of ", w, " afterwards");
    c.label(bad ? "with & | %" : "without");
    c.nontrivial = bad && (m > 1 || !isBitOp(e->op));
}
