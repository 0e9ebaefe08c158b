#include "bridge.h"
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C03";
const char *const kRule =
    "a case is one random expression tree (all operators, functions, signs, negative literals); it is printed, parsed and compared with "
    "the reference: variables, and values at six assignments within a rigorous bound on the rounding of printed numbers and regrouped "
    "chains. Non-trivial: at least two operators and at least one assignment at which the bound applies.";
const Knobs kKnobs = {30, 60000, false};

static double number(Src &s) {
    double v;
    switch (s.draw(6)) {
    case 0: v = genNumber(s, 1); break;
    case 1: v = genNumber(s, 2); break;
    default: v = genNumber(s, 0);
    }
    return v != 0 && s.draw(3) == 0 ? -v : v;
}
static E withNumbers(Src &s, const E &e) { // redraw some literals with wild ones
    if (e->op == Op::NUM) return s.draw(4) == 0 ? num(number(s)) : e;
    if (e->op == Op::VAR) return e;
    E l = withNumbers(s, e->l);
    return e->r ? bin(e->op, l, withNumbers(s, e->r)) : un(e->op, l);
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    GenOpts o;
    o.vars = {"x", "y", "z"};
    o.bitOps = s.draw(3) == 0;
    o.functions = s.draw(3) != 0;
    o.unarySigns = s.draw(4) != 0;
    o.power = true;
    o.numStyle = (int)s.draw(2);
    o.tame = s.coin();
    int ops = s.draw(4) ? (int)s.range(1, 5) : (int)s.range(0, 18);
    E e = genExpr(s, o, ops);
    if (s.draw(4) == 0) e = withNumbers(s, e);
    if (s.draw(24) == 23) { // deep inside a long chain
        int k = (int)s.range(20, 150), shape = (int)s.draw(3);
        for (int i = 0; i < k; i++) {
            Op op = s.pick({Op::SUB, Op::ADD, Op::SUB, Op::MUL, Op::DIV});
            bool right = shape == 0 || (shape == 2 && s.coin());
            if (op == Op::DIV && right) op = Op::SUB;
            E v = num(op == Op::MUL || op == Op::DIV ? 1 : (double)s.range(0, 3));
            e = right ? bin(op, v, e) : bin(op, e, v);
        }
        c.label("long chain");
    }
    ts::Node n = toNode(e, &s), keep = toNode(e);
    std::string text = n->ToString();
    c.describe([&](std::ostream &q) { q << "tree " << show(e) << " prints as \"" << text << "\""; });
    c.key = show(e);
    REQUIRE(n->Equal(keep), "printing modified the expression ", show(e));
    REQUIRE(keep->ToString() == text, "equal trees print differently: ", text, " and ", keep->ToString());
    std::ostringstream st;
    st << n;
    REQUIRE(st.str() == text, "stream output differs from ToString: ", st.str(), " and ", text);
    ts::Node back;
    try {
        back = ts::Parse(text);
    } catch (const std::exception &x) {
        failf("the printed text \"", text, "\" of ", show(e), " cannot be parsed: ", x.what());
    }
    auto names = vars(e);
    REQUIRE(back->GetAllVarNames() == names, "variables of ", text);
    int used = 0;
    for (int k = 0; k < 6; k++) {
        Env env;
        Bounded b;
        for (int t = 0; t < 4 && (t == 0 || !b.ok); t++) {
            env = genEnv(s, names, k < 2 ? 0 : k < 4 ? 3 : 1);
            b = evalBounded(e, env, 1.3e-16L);
        }
        if (!b.ok) continue;
        used++;
        double got = valueAt(back, env);
        double tol = (double)(b.err * 16 + fabsl(b.v) * 1e-14L + 1e-300L);
        REQUIRE(std::fabs((double)(got - b.v)) <= tol, show(e), " = ", (double)b.v, " at ", showEnv(env), " but the parsed text \"", text, "\" gives ", got, " (tolerance ", tol, ")");
    }
    c.nontrivial = used > 0 && ops >= 2;
    if (used) c.label("compared");
}
