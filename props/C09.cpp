#include "bridge.h"
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C09";
const char *const kRule =
    "a case is one random expression over all functions, operators and signs in up to 4 variables, a variable to differentiate by (sometimes "
    "absent) and up to 8 points; Diff (const, moved, and of a parsed text) evaluated there is compared with forward-mode jets of the reference "
    "model within 1e-9 of the sum of the magnitudes of all terms. Non-trivial: the variable occurs and at least one point is interior and compared.";
const Knobs kKnobs = {30, 40000, false};

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    GenOpts o;
    static const std::vector<std::vector<std::string>> sets = {{"x"}, {"x", "y"}, {"x", "xx", "x1"}, {"x", "y", "z", "_"}};
    o.vars = s.pick(sets);
    o.functions = s.draw(4) != 0;
    o.tame = s.draw(4) != 0;
    o.numStyle = s.draw(4) == 3 ? 1 : 0;
    o.maxSize = s.draw(12) == 11 ? 40 : 14;
    E e = genExpr(s, o);
    switch (s.draw(8)) { // shapes worth more weight
    case 0: e = un((Op)((int)Op::SIN + (int)s.draw(11)), genExpr(s, o, (int)s.draw(4))); break;
    case 1: e = bin(Op::POW, genExpr(s, o, (int)s.draw(3)), genExpr(s, o, (int)s.draw(3))); break;
    case 2: e = bin(Op::POW, genExpr(s, o, (int)s.draw(4)), num((double)s.range(-5, 7))); break;
    case 3: e = bin(s.coin() ? Op::DIV : Op::MUL, genExpr(s, o, (int)s.draw(4)), genExpr(s, o, (int)s.draw(4))); break;
    default: break;
    }
    if (s.draw(40) == 39) { // a wide sum of small terms, as a balanced tree or a chain
        std::vector<E> q;
        for (int t = (int)s.range(20, 200); t > 0; t--) q.push_back(s.draw(3) ? var(s.pick(o.vars)) : genExpr(s, o, (int)s.draw(2)));
        bool chain = s.draw(3) == 0;
        while (q.size() > 1) {
            std::vector<E> w;
            for (size_t i = 0; i < q.size(); i += 2) w.push_back(i + 1 == q.size() ? q[i] : bin(s.draw(4) ? Op::ADD : Op::SUB, q[i], q[i + 1]));
            if (chain) { w[0] = q[0]; for (size_t i = 1; i < q.size(); i++) w[0] = bin(Op::ADD, w[0], q[i]); w.resize(1); }
            q = w;
        }
        e = q[0];
        c.label("wide sum");
    }
    std::string v = s.draw(8) == 7 ? std::string("w") : s.pick(o.vars);
    bool pol = s.draw(4) != 0;
    bool present = contains(e, v);
    c.describe([&](std::ostream &q) { q << "d/d" << v << " of " << show(e); });
    c.key = v + "|" + show(e);
    ts::Node n = toNode(e, &s), keep = toNode(e);
    ts::Node d, d2;
    {
        Policy p(pol);
        d = ts::Diff(n, v);
        REQUIRE(n->Equal(keep), "differentiating changed its const argument ", show(e));
        n->CheckParent();
        d2 = s.coin() ? ts::Diff(ts::Clone(n), v) : ts::Diff(std::move(n), v, 1);
    }
    d->CheckParent();
    auto names = vars(e);
    for (auto &x : d->GetAllVarNames()) REQUIRE(names.count(x), "new variable ", x, " in the derivative ", d->ToString());
    int used = 0;
    if (!present) c.label("absent variable");
    for (int k = 0; k < 8; k++) {
        Env env;
        JetResult j;
        for (int t = 0; t < 3 && !j.ok; t++) {
            env = genEnv(s, names, k < 2 ? 3 : k < 4 ? 0 : 1);
            j = jets(e, env, {v});
        }
        if (!j.ok) continue;
        used++;
        double want = (double)j.c[1], tol = (double)(j.mass[1] * 1e-9L) + 1e-12;
        for (const ts::Node *q : {&d, &d2}) {
            double g = valueAt(*q, env);
            if (!present) REQUIRE(g == 0, "the derivative of ", show(e), " by the absent ", v, " is ", g, " at ", showEnv(env));
            REQUIRE(std::fabs(g - want) <= tol, "d/d", v, " of ", show(e), " at ", showEnv(env), " is ", want, " but ", (*q)->ToString(), " gives ", g, " (tolerance ", tol, ")");
        }
    }
    if (used) c.label("compared");
    c.nontrivial = present && used > 0;
}
