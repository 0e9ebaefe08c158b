#include "bridge.h"
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C10";
const char *const kRule =
    "a case is one random expression, an order 2..7 (above 4 for expressions of at most 4 nodes) and a sequence of variables; the k-th derivative in one call, by repeated calls and mixed "
    "partials in two different orders are evaluated at random points and compared with multivariate jets of the reference model; polynomials of "
    "lower degree must give 0. Non-trivial: at least one interior point was compared and the derivative is not identically zero there.";
const Knobs kKnobs = {60, 16000, false};

static E poly(Src &s, const std::string &v, int deg) {
    E e = num((double)s.range(0, 5));
    for (int k = 1; k <= deg; k++) {
        E t = bin(Op::POW, var(v), num(k));
        if (k == 1 && s.coin()) t = var(v);
        if (k == 2 && s.coin()) t = bin(Op::MUL, var(v), var(v));
        double co = (double)s.range(1, 6);
        if (co != 1) t = s.coin() ? bin(Op::MUL, num(co), t) : bin(Op::MUL, t, num(co));
        e = s.coin() ? bin(s.coin() ? Op::ADD : Op::SUB, e, t) : bin(s.coin() ? Op::ADD : Op::SUB, t, e);
    }
    return e;
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    if (s.draw(6) == 0) {
        int deg = (int)s.range(0, s.draw(3) == 2 ? 8 : 4);
        E e = poly(s, "x", deg);
        int k = deg + (int)s.range(1, 2);
        c.describe([&](std::ostream &q) { q << k << "-th derivative of the polynomial " << show(e); });
        c.key = show(e) + std::to_string(k);
        ts::Node d = ts::Diff(toNode(e, &s), "x", k);
        for (double x : {0.0, 1.0, -2.0, 3.0, 10.0}) {
            double g = valueAt(d, {{"x", x}});
            REQUIRE(g == 0, k, "-th derivative of ", show(e), " at ", x, " is ", g);
        }
        // and the k-th derivative of degree k is the leading coefficient times k!
        c.label("polynomial");
        c.nontrivial = deg >= 1;
        return;
    }
    GenOpts o;
    o.vars = s.coin() ? std::vector<std::string>{"x", "y"} : std::vector<std::string>{"x"};
    o.tame = s.draw(5) != 0;
    o.functions = s.draw(4) != 0;
    E e = genExpr(s, o, (int)s.range(1, s.draw(4) == 3 ? 9 : 5));
    if (s.draw(4) == 0) e = bin(Op::POW, genExpr(s, o, (int)s.draw(3)), s.coin() ? num((double)s.range(-3, 6)) : genExpr(s, o, (int)s.draw(2)));
    int k = (int)s.range(2, s.draw(4) == 3 ? 4 : 3);
    if (size(e) <= 4 && s.draw(6) == 5) k = (int)s.range(5, size(e) <= 3 ? 7 : 6);
    std::vector<std::string> dirs;
    bool pure = s.coin() || o.vars.size() < 2;
    std::string v = s.pick(o.vars);
    for (int i = 0; i < k; i++) dirs.push_back(pure ? v : s.pick(o.vars));
    c.describe([&](std::ostream &q) { q << "derivative by"; for (auto &d : dirs) q << " " << d; q << " of " << show(e); });
    c.key = show(e);
    for (auto &d : dirs) c.key += "|" + d;
    ts::Node n = toNode(e, &s), keep = toNode(e);
    auto tooBig = [&](const ts::Node &t) { return t->ToString().size() > 30000; };
    // in steps
    ts::Node step = ts::Clone(n);
    for (auto &d : dirs) {
        step = s.coin() ? ts::Diff(step, d) : ts::Diff(std::move(step), d);
        if (tooBig(step)) throw Discard();
    }
    // the other way round
    ts::Node other;
    if (pure) {
        other = s.coin() ? ts::Diff(n, v, k) : ts::Diff(ts::Clone(n), v, k);
        c.label("one call, k=" + std::to_string(k));
    } else {
        std::vector<std::string> rev(dirs.rbegin(), dirs.rend());
        if (s.coin()) std::sort(rev.begin(), rev.end());
        other = ts::Clone(n);
        for (size_t i = 0; i < rev.size();) { // runs of one variable in one call
            size_t j = i;
            while (j < rev.size() && rev[j] == rev[i]) j++;
            other = ts::Diff(std::move(other), rev[i], (int)(j - i));
            if (tooBig(other)) throw Discard();
            i = j;
        }
        c.label("mixed, k=" + std::to_string(k));
    }
    REQUIRE(n->Equal(keep), "differentiating changed its const argument");
    auto names = vars(e);
    int used = 0, nonzero = 0;
    for (int p = 0; p < 6; p++) {
        Env env;
        JetResult j;
        for (int t = 0; t < 3 && !j.ok; t++) {
            env = genEnv(s, names, p < 2 ? 3 : p < 3 ? 0 : 1);
            j = jets(e, env, dirs);
        }
        if (!j.ok) continue;
        used++;
        size_t full = j.c.size() - 1;
        double want = (double)j.c[full], tol = (double)(j.mass[full] * 1e-8L) + 1e-10;
        if (std::fabs(want) > tol) nonzero++;
        for (const ts::Node *q : {&step, &other}) {
            double g = valueAt(*q, env);
            REQUIRE(std::fabs(g - want) <= tol, q == &step ? "stepwise" : "one-call or reordered", " derivative of ", show(e), " at ", showEnv(env), " is ", want, " but the library gives ", g, " (tolerance ", tol, ")");
        }
    }
    c.nontrivial = used > 0 && nonzero > 0;
    if (used) c.label("compared");
}
