#include "bridge.h"
#include <cstring>
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C28";
const char *const kRule =
    "a case is one of: a random expression built three times by code (operators, functions, compound assignments, copied and moved operands in random ways) and once by parsing one of its texts, all compared "
    "structurally, by text, by variables and with an almost equal expression; a random double put into Num, a Mat, a symbolic entry and a substitution; a random byte string as a name. Non-trivial: two or more "
    "operators, a number that is no integer, or a name of two or more bytes.";
const Knobs kKnobs = {30, 30000, false, 3};

namespace {
void expressions(Case &c) {
    Src &s = c.s;
    GenOpts o;
    o.vars = {"x", "y", "alpha_1", "x1", genName(s)};
    if (s.draw(3) == 2) o.vars.push_back(genNameLike(s, s.pick(o.vars)));
    o.negativeNumbers = false;
    o.bitOps = s.draw(3) == 2;
    o.numStyle = (int)s.draw(3);
    o.maxSize = 24;
    E e = genExpr(s, o);
    if (s.draw(400) == 399) { // a long text
        E f = e;
        for (int k = (int)s.draw(1500); k > 0; k--) f = bin(s.pick({Op::ADD, Op::MUL, Op::SUB}), f, k % 7 ? num(k) : e);
        e = f;
    }
    std::string text = genText(s, e);
    c.describe([&](std::ostream &q) { q << "build " << show(e) << "\nparse \"" << text << "\""; });
    c.key = show(e);
    c.nontrivial = model::size(e) >= 2;
    ts::Node a = toNode(e), b = toNode(e, &s), d = toNode(e, &s), p = ts::Parse(text);
    std::string want = a->ToString();
    const ts::Node *all[] = {&b, &d, &p};
    const char *const how[] = {"built another way", "built yet another way", "parsed"};
    for (int i = 0; i < 3; i++) {
        const ts::Node &n = *all[i];
        n->CheckParent();
        REQUIRE(a->Equal(n) && n->Equal(a), "the expression ", how[i], " is ", n->ToString(), ", not equal to ", want);
        REQUIRE(n->ToString() == want, "the expression ", how[i], " prints as ", n->ToString(), " instead of ", want);
        REQUIRE(n->GetAllVarNames() == vars(e), "the expression ", how[i], " has other variables");
    }
    E f = nearMiss(s, e);
    if (!same(e, f)) {
        ts::Node n = toNode(f, &s);
        REQUIRE(!a->Equal(n) && !n->Equal(a), "equal to the different expression ", show(f));
        if (s.draw(8) == 7) { // inside the same large expression
            ts::Node x = toNode(e), y = std::move(n), z = toNode(e, &s);
            int k = (int)s.range(1, s.draw(4) ? 40 : 600);
            for (int i = 0; i < k; i++) {
                int w = (int)s.draw(4);
                E other = w < 2 ? genExpr(s, o, (int)s.draw(s.draw(10) ? 3 : 30)) : nullptr;
                Op op = w < 2 ? s.pick({Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}) : s.pick({Op::SIN, Op::NEG, Op::EXP, Op::ATAN});
                for (ts::Node *q : {&x, &y, &z}) {
                    if (w == 0) *q = binary(op, std::move(*q), toNode(other));
                    else if (w == 1) *q = binary(op, toNode(other), std::move(*q));
                    else *q = unary(op, std::move(*q));
                }
            }
            REQUIRE(!x->Equal(y) && !y->Equal(x), "equal to a large expression that contains ", show(f), " instead, ", k, " levels down");
            REQUIRE(x->Equal(z) && z->Equal(x), "not equal to the same large expression, ", k, " levels");
            c.label("large");
        }
    }
    if (!bridge::ts::Parse(want)) fail("no expression");
    if (e->r || isUnary(e->op)) { // the literal operator
        ts::Node l = ts::operator""_f(text.c_str(), text.size());
        REQUIRE(l->Equal(a), "the literal operator gives ", l->ToString());
    }
    c.label("expression");
}
void numbers(Case &c) {
    Src &s = c.s;
    double v;
    switch (s.draw(5)) {
    case 0: { uint64_t u = s.draw(0); memcpy(&v, &u, 8); break; }
    case 1: v = (s.coin() ? 1 : -1) * genNumber(s, 2); break;
    case 2: v = s.pick({0.0, -0.0, 5e-324, -5e-324, 1.7976931348623157e308, (double)INFINITY, -(double)INFINITY, std::nan(""), 2.2250738585072014e-308}); break;
    case 3: v = (double)s.range(-100, 100) / 8; break;
    default: v = (double)(int64_t)s.draw(0); break;
    }
    c.describe([&](std::ostream &q) { q << "the number " << fmt(v); });
    c.key = fmt(v);
    c.nontrivial = v != std::floor(v) || std::fabs(v) > 1e6;
    auto sameV = [](double a, double b) { return sameBits(a, b) || (a != a && b != b); };
    ts::Node n = ts::Num(v);
    REQUIRE(sameV(n->Vpa(), v), "Num holds ", n->Vpa());
    REQUIRE(sameV(ts::Clone(n)->Vpa(), v), "a clone of Num holds ", ts::Clone(n)->Vpa());
    REQUIRE(n->GetAllVarNames().empty(), "a number has variables");
    REQUIRE(n->ToString() == ts::ToString(v), "the number prints as ", n->ToString());
    if (v == v) {
        REQUIRE(n->Equal(ts::Num(v)), "not equal to itself");
        double w = std::nextafter(v, v > 0 ? -INFINITY : INFINITY);
        REQUIRE(!n->Equal(ts::Num(w)), "equal to ", w);
    }
    ts::VarsTable table(std::map<std::string, double>{{"j", 1}, {"k", v}}), other(std::vector<std::string>{"k"}, v);
    REQUIRE(sameV(table["k"], v) && sameV(other["k"], v) && sameV(table.Values()[1], v), "a table holds ", table["k"], " and ", other["k"]);
    ts::SymVec one(1), eq(1);
    one[0] = ts::Clone(n);
    eq[0] = ts::Var("k");
    ts::Mat at(1, 1);
    at.Value(0, 0) = v;
    std::map<std::string, ts::Node> dict;
    dict["k"] = ts::Clone(n);
    const double got[] = {ts::Subs(ts::Var("k"), "k", n)->Vpa(), ts::Subs(ts::Var("k"), std::map<std::string, double>{{"k", v}})->Vpa(), ts::Subs(ts::Var("k"), table)->Vpa(), ts::Subs(ts::Var("k"), other)->Vpa(),
        ts::Subs(ts::Var("k"), std::vector<std::string>{"k"}, one)->Vpa(), ts::Subs(ts::Var("k"), dict)->Vpa(), eq.Clone().Subs(table).ToMat().Value(0, 0), ts::SymMat(eq.Clone()).Subs(std::map<std::string, double>{{"k", v}}).Calc().ToMat().Value(0, 0),
        ts::SymMat(at).ToMat().Value(0, 0)};
    for (size_t i = 0; i < sizeof got / sizeof *got; i++) REQUIRE(sameV(got[i], v), "substitution ", i, " gives ", fmt(got[i]));
    ts::Mat a(1, 2, v);
    double back = ts::SymMat(a).ToMat().Value(0, 1);
    REQUIRE(sameV(back, v), "a symbolic entry holds ", back);
    n->Calc();
    REQUIRE(sameV(n->Vpa(), v), "Calc of a number changed it");
    ts::Simplify(n);
    REQUIRE(sameV(n->Vpa(), v), "Simplify of a number changed it");
    c.label("number");
}
void names(Case &c) {
    Src &s = c.s;
    std::string n;
    switch (s.draw(4)) {
    case 0: for (int k = s.size(4, 60); k > 0; k--) n += (char)s.draw(256); break;
    case 1: n = s.pick({std::string("sin"), std::string("Sin"), std::string("sinx"), std::string("e5"), std::string("1e5"), std::string("_"), std::string("__"), std::string("log2"), std::string("log3"), std::string("arcsin"), std::string("arcsi"),
                std::string("x "), std::string(" x"), std::string("x\n"), std::string("x\0y", 3), std::string("x."), std::string("-x"), std::string("E"), std::string("_9"), std::string("9_"), std::string("exp1")}); break;
    default: n = genName(s); break;
    }
    if (s.draw(4) == 3) n.insert(s.draw(n.size() + 1), 1, s.pick({'.', '-', '$', '\xe9', ' ', '[', '`', '@', '{', '/', ':'}));
    c.describe([&](std::ostream &q) { q << "the name \"" << n << "\""; });
    c.key = n;
    c.nontrivial = n.size() >= 2;
    bool legal = !n.empty() && !(n[0] >= '0' && n[0] <= '9');
    for (char ch : n) legal = legal && ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_');
    REQUIRE(ts::VarNameIsLegal(n) == legal, "VarNameIsLegal says ", !legal);
    ts::Node v;
    try { v = ts::Var(n); } catch (const std::runtime_error &) {}
    REQUIRE((v != nullptr) == legal, "Var ", legal ? "rejects" : "accepts", " it");
    c.label(legal ? "legal name" : "illegal name");
    if (!legal) return;
    REQUIRE(v->ToString() == n && v->GetAllVarNames() == std::set<std::string>{n}, "the variable is called ", v->ToString());
    REQUIRE(v->Equal(ts::Var(n)) && !v->Equal(ts::Var(n + "x")) && !v->Equal(ts::Var(genNameLike(s, n))) && !v->Equal(ts::Num(0)), "equality of variables");
    if (reservedName(n)) return; // only in texts
    ts::Node p = ts::Parse(n), q = ts::Parse("(" + n + "+1)*" + n);
    REQUIRE(p->Equal(v), "parsed as ", p->ToString());
    REQUIRE(q->Equal((ts::Var(n) + ts::Num(1)) * ts::Var(n)), "parsed as ", q->ToString());
}
} // namespace

void property(Case &c) {
    resetConfig();
    switch (c.s.draw(5)) {
    case 0: numbers(c); break;
    case 1: names(c); break;
    default: expressions(c); break;
    }
}
