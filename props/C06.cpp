#include "bridge.h"
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C06";
const char *const kRule =
    "a case is one random expression over finite literals (biased towards invalid operations: division by zero, logarithms of negatives, "
    "overflow; sometimes with a variable) evaluated several times, in and not in place, while the throw-on-invalid-value policy is switched at random; each "
    "outcome (value, error kind, expression afterwards) is compared with the reference. Non-trivial: an invalid operation occurs or a variable is present.";
const Knobs kKnobs = {20, 100000, false};

static E spoil(Src &s, const E &e) { // plant an invalid operation somewhere
    if (e->op == Op::NUM || s.draw(4) == 0) {
        switch (s.draw(9)) {
        case 0: return bin(Op::DIV, e, num(0));
        case 1: return un(Op::LOG, num(-(double)s.range(0, 3)));
        case 2: return un(Op::SQRT, num(-(double)s.range(1, 3)));
        case 3: return un(s.coin() ? Op::ASIN : Op::ACOS, num((double)s.range(2, 5)));
        case 4: return un(Op::EXP, num((double)s.range(700, 720)));
        case 5: return bin(Op::POW, num(-2), num(0.5));
        case 6: return bin(Op::MUL, num(1e300), num(1e300));
        case 7: return bin(s.pick({Op::MOD, Op::AND, Op::OR}), num(s.coin() ? 5 : 1e10), num(0));
        default: return bin(Op::POW, num(0), num(-1));
        }
    }
    if (e->op == Op::VAR) return e;
    if (!e->r) return un(e->op, spoil(s, e->l));
    return s.coin() ? bin(e->op, spoil(s, e->l), e->r) : bin(e->op, e->l, spoil(s, e->r));
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    GenOpts o;
    o.bitOps = s.draw(3) == 0;
    o.numStyle = (int)s.draw(3);
    o.tame = s.coin();
    o.maxSize = 20;
    if (s.draw(4) == 0) o.vars = {"x", "y"};
    E e = genExpr(s, o);
    if (s.draw(3) == 0) e = spoil(s, e);
    if (s.draw(24) == 23) { // deep inside, with many operands waiting
        int k = (int)s.range(10, 200), shape = (int)s.draw(3);
        for (int i = 0; i < k; i++) {
            Op op = s.pick({Op::ADD, Op::SUB, Op::MUL});
            E v = num(op == Op::MUL ? 1 : (double)s.range(0, 3));
            e = shape == 0 || (shape == 2 && s.coin()) ? bin(op, v, e) : bin(op, e, v);
        }
        c.label("deep");
    }
    auto names = vars(e);
    Eval want = eval(e, {});
    c.describe([&](std::ostream &q) { q << show(e) << " = " << fmt(want.v) << (want.invalid ? " invalid" : "") << (want.unbound ? " unbound" : ""); });
    c.key = show(e);
    ts::Node n = toNode(e, &s), keep = toNode(e);
    if (want.invalid) c.label("invalid operation");
    if (want.unbound) c.label("unbound variable");
    if (want.invalid && want.v - want.v == 0) c.label("finite result of an invalid operation");
    c.nontrivial = want.invalid || want.unbound;
    int steps = (int)s.range(2, 5);
    for (int k = 0; k < steps; k++) {
        bool pol = k == 0 ? s.draw(3) != 0 : s.coin();
        ts::Config::Get().throwOnInvalidValue = pol;
        bool inPlace = s.coin();
        c.describe([&](std::ostream &q) { q << (inPlace ? "Calc" : "Vpa") << " with policy " << pol; });
        bool threw = false, math = false;
        double v = 0;
        ts::ErrorType kind = ts::ErrorType::ERROR_ILLEGALCHAR;
        try {
            if (inPlace) {
                ts::Node m = ts::Clone(n);
                try {
                    m->Calc();
                    v = m->Vpa();
                } catch (...) {
                    REQUIRE(m->Equal(keep), "a failed in-place evaluation modified ", show(e));
                    m->CheckParent();
                    throw;
                }
            } else v = n->Vpa();
        } catch (const ts::MathError &x) {
            threw = math = true;
            kind = x.GetErrorType();
            REQUIRE(std::string(x.what()) != "", "empty message");
        } catch (const std::runtime_error &) {
            threw = true;
        }
        REQUIRE(ts::Config::Get().throwOnInvalidValue == pol, "evaluation changed the policy");
        REQUIRE(n->Equal(keep), "evaluation modified ", show(e));
        if (want.unbound) {
            REQUIRE(threw, "evaluating ", show(e), " with an unbound variable returned ", v);
            if (math) REQUIRE(pol || kind != ts::ErrorType::ERROR_INVALID_NUMBER, "invalid-number error with the policy off");
            continue;
        }
        if (pol && want.invalid) {
            REQUIRE(threw, "evaluating ", show(e), " should report an invalid number but returned ", v);
            REQUIRE(math && kind == ts::ErrorType::ERROR_INVALID_NUMBER, "wrong kind of error evaluating ", show(e));
        } else {
            REQUIRE(!threw, "evaluating ", show(e), " threw with policy ", pol, " although ", want.invalid ? "the policy is off" : "every operation is finite");
            REQUIRE(sameBits(v, want.v), show(e), " evaluates to ", v, " instead of ", want.v);
        }
    }
    // bound afterwards, it evaluates
    if (want.unbound) {
        Env env = genEnv(s, names, 0);
        Eval w = eval(e, env);
        REQUIRE(sameBits(valueAt(n, env), w.v), "after binding, ", show(e), " at ", showEnv(env), " gives ", valueAt(n, env));
    }
}
