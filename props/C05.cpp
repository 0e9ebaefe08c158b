#include "bridge.h"
#include <climits>
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C05";
const char *const kRule =
    "a case is one random variable-free expression (all operators and functions, literals from small to extreme) evaluated by the library "
    "and by an independent bottom-up IEEE evaluator, bit for bit, not in place and in place; or eight direct calls of the per-operation function. "
    "Non-trivial: at least two operators, or any direct call case.";
const Knobs kKnobs = {20, 100000, false};

static double operand(Src &s) {
    double v;
    switch (s.draw(6)) {
    case 0: v = (double)s.range(0, 300); break;
    case 1: v = (double)s.draw(1ull << 33) + (s.coin() ? 0.5 : 0); break;
    case 2: v = s.pick({2147483647.0, 2147483648.0, 2147483647.5, 2147483648.5, 2147483649.0, 4294967296.0, 0.5, 0.999, 1e10, 1e300, 0.0}); break;
    case 3: v = s.unit(); break;
    default: v = genNumber(s, 2);
    }
    return s.coin() ? -v : v;
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    if (s.draw(5) == 4) { // direct calls
        Policy p(false);
        for (int k = 0; k < 8; k++) {
            Op o = (Op)((int)Op::POS + (int)s.draw(21));
            double a = operand(s), b = operand(s);
            double want = apply(o, a, b), got = ts::Calc(mop(o), a, b);
            c.describe([&](std::ostream &q) { q << "op " << (int)o << " " << fmt(a) << " " << fmt(b) << " = " << fmt(want) << "; "; });
            c.key += std::to_string((int)o) + fmt(a) + fmt(b);
            REQUIRE(sameBits(want, got), "operation ", (int)o, " on ", a, ", ", b, " gives ", got, " instead of ", want);
        }
        c.nontrivial = true;
        c.label("direct");
        return;
    }
    GenOpts o;
    o.bitOps = s.coin();
    o.functions = s.draw(3) != 0;
    o.numStyle = (int)s.draw(3);
    o.tame = s.coin();
    o.maxSize = 30;
    E e = genExpr(s, o);
    if (s.draw(40) == 39) { // many operands waiting
        int k = (int)s.range(20, 200), shape = (int)s.draw(3);
        for (int i = 0; i < k; i++) {
            Op op = s.pick({Op::SUB, Op::ADD, Op::MUL});
            E v = num(op == Op::MUL ? s.pick({1.0, -1.0}) : (double)s.range(0, 3) * s.pick({1.0, 0.1, 0.0}));
            e = shape == 0 || (shape == 2 && s.coin()) ? bin(op, v, e) : bin(op, e, v);
        }
        c.label("long chain");
    }
    Eval want = eval(e, {});
    c.describe([&](std::ostream &q) { q << show(e) << " = " << fmt(want.v) << (want.invalid ? " (invalid operation inside)" : ""); });
    c.key = show(e);
    c.nontrivial = size(e) >= 4;
    if (want.invalid) c.label("invalid inside");
    if (containsBitOp(e)) c.label("bit operators");
    ts::Node n = toNode(e, &s), keep = toNode(e);
    bool pol = !want.invalid && s.coin();
    Policy p(pol);
    double got = n->Vpa();
    REQUIRE(sameBits(got, want.v), show(e), " evaluates to ", got, " instead of ", want.v);
    REQUIRE(n->Equal(keep) && n->ToString() == keep->ToString(), "evaluation modified ", show(e));
    ts::internal::NodeImpl &ref = n->Calc();
    REQUIRE(&ref == n.get(), "Calc returns another node");
    REQUIRE(sameBits(n->Vpa(), want.v), "in-place evaluation of ", show(e), " gives ", n->Vpa(), " instead of ", want.v);
    if (want.v == want.v) REQUIRE(n->Equal(ts::Num(want.v)), "in-place evaluation of ", show(e), " is not a single number");
    REQUIRE(n->ToString() == ts::Num(want.v)->ToString() || want.v != want.v, "in-place evaluation of ", show(e), " prints ", n->ToString());
    REQUIRE(n->GetAllVarNames().empty(), "variables after Calc");
    // the evaluated number can take part in further expressions
    ts::Node m = std::move(n) - ts::Num(1);
    m->CheckParent();
    Policy q(false);
    REQUIRE(sameBits(m->Vpa(), want.v - 1), "using the evaluated number gives ", m->Vpa());
}
