#include "bridge.h"
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C08";
const char *const kRule =
    "a case is one random expression (literals biased to 0, 1, -1 and their sums; derivatives of random expressions; invalid constant "
    "operations planted), simplified under a random invalid-value policy and evaluated before and after at up to 8 assignments; constants must fold to "
    "one number, simplifying twice must equal simplifying once. Non-trivial: simplification changed the tree and at least one assignment was compared.";
const Knobs kKnobs = {30, 60000, false};

// 1 and 0, and now and then a number that only looks like it
static E one(Src &s) { return num(s.draw(8) == 7 ? s.pick({1 + 1e-10, 1 - 1e-10, 1 + 1e-7, 1 + 1e-12, 1 + 2.3e-16, 0.99999999999}) : 1.0); }
static E zero(Src &s) { return num(s.draw(8) == 7 ? s.pick({1e-10, -1e-10, 1e-7, 1e-12, -1e-16, 1e-300}) : 0.0); }
static E plant(Src &s, const E &e, int how) {
    // identities and absorbing elements in random places
    if (s.draw(3) == 0) {
        switch (s.draw(how ? 20 : 14)) {
        case 0: return bin(Op::ADD, e, zero(s));
        case 1: return bin(Op::ADD, zero(s), e);
        case 2: return bin(Op::SUB, e, zero(s));
        case 3: return bin(Op::SUB, zero(s), e);
        case 4: return bin(Op::MUL, e, one(s));
        case 5: return bin(Op::MUL, one(s), e);
        case 6: return bin(Op::MUL, e, num(s.coin() ? 0.0 : -0.0));
        case 7: return bin(Op::MUL, zero(s), e);
        case 8: return bin(Op::DIV, e, one(s));
        case 9: return bin(Op::DIV, (s.draw(3) ? zero(s) : one(s)), e);
        case 10: return bin(Op::POW, e, (s.draw(3) ? one(s) : s.draw(2) ? zero(s) : num(-1)));
        case 11: return bin(Op::POW, (s.draw(2) ? one(s) : zero(s)), e);
        case 12: return bin(s.pick({Op::SUB, Op::DIV, Op::ADD, Op::MUL}), e, e);
        case 13: return bin(s.pick({Op::MOD, Op::AND, Op::OR}), s.coin() ? e : (s.draw(2) ? zero(s) : one(s)), s.coin() ? e : (s.draw(2) ? zero(s) : one(s)));
        case 14: return bin(Op::ADD, e, bin(Op::DIV, one(s), zero(s)));
        case 15: return bin(Op::MUL, un(Op::LOG, num(-1)), e);
        case 16: return bin(Op::POW, e, un(Op::ASIN, num(2)));
        case 17: return bin(Op::DIV, e, zero(s));
        case 18: return bin(Op::SUB, e, un(Op::EXP, num(1000)));
        default: return bin(Op::MUL, e, un(Op::SQRT, num(-2)));
        }
    }
    if (e->op == Op::NUM || e->op == Op::VAR) return e;
    E l = plant(s, e->l, how);
    return e->r ? bin(e->op, l, plant(s, e->r, how)) : un(e->op, l);
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    GenOpts o;
    if (s.draw(4)) o.vars = {"x", "y"};
    o.bitOps = s.draw(4) == 0;
    o.functions = s.draw(3) != 0;
    o.numStyle = s.draw(4) == 3 ? 1 : 0;
    o.tame = s.coin();
    o.maxSize = s.draw(10) == 9 ? 60 : 16;
    E e = genExpr(s, o);
    int how = s.draw(3) == 0;
    if (s.draw(3)) e = plant(s, e, how);
    if (s.draw(4) == 0) e = plant(s, e, how);
    if (s.draw(24) == 23) { // deep inside a long chain
        int k = (int)s.range(20, 400), shape = (int)s.draw(3);
        for (int i = 0; i < k; i++) {
            Op op = s.pick({Op::SUB, Op::ADD, Op::SUB, Op::MUL, Op::DIV});
            bool right = shape == 0 || (shape == 2 && s.coin());
            if (op == Op::DIV && right) op = Op::SUB;
            E v = num(op == Op::MUL || op == Op::DIV ? 1 : (double)s.range(0, 3));
            e = right ? bin(op, v, e) : bin(op, e, v);
        }
        c.label("long chain");
    }
    bool pol = s.draw(3) != 0;
    ts::Config::Get().throwOnInvalidValue = pol;
    ts::Node n = toNode(e, &s);
    c.describe([&](std::ostream &q) { q << "simplify " << show(e) << " policy " << pol; });
    c.key = show(e);
    std::string before = n->ToString();
    ts::Simplify(n);
    REQUIRE(n != nullptr, "simplified to nothing");
    n->CheckParent();
    std::string text = n->ToString();
    c.describe([&](std::ostream &q) { q << "gives " << text; });
    auto names = vars(e);
    for (auto &v : n->GetAllVarNames()) REQUIRE(names.count(v), "new variable ", v, " in ", text);
    ts::Node twice = ts::Clone(n);
    ts::Simplify(twice);
    REQUIRE(twice->ToString() == text, "simplifying ", text, " again gives ", twice->ToString());
    {   // NaN aside, structurally too
        Eval w = eval(e, {});
        if (pol) REQUIRE(twice->Equal(n) && n->Equal(twice), "simplifying ", text, " again changes it");
        if (names.empty() && !w.invalid && !w.zeroPowZero) {
            c.label("constant");
            REQUIRE(n->Equal(ts::Num(w.v)), show(e), " = ", w.v, " simplifies to ", text);
        }
    }
    int used = 0;
    for (int k = 0; k < 8; k++) {
        Env env;
        Eval w;
        for (int t = 0; t < 3; t++) {
            env = genEnv(s, names, k < 3 ? 0 : k < 5 ? 3 : k < 7 ? 1 : 2);
            w = eval(e, env);
            if (!w.invalid && !w.zeroPowZero) break;
        }
        if (w.invalid || w.zeroPowZero) continue;
        used++;
        double got = valueAt(n, env);
        if (sameValue(got, w.v)) continue;
        Bounded b = evalBounded(e, env, 0);
        double tol = b.ok ? (double)(b.err * 16) + std::fabs(w.v) * 1e-14 : 0;
        REQUIRE(b.ok && std::fabs(got - w.v) <= tol, show(e), " = ", w.v, " at ", showEnv(env), " but its simplification ", text, " gives ", got);
    }
    if (used) c.label("compared");
    c.nontrivial = text != before && (used > 0);
}
