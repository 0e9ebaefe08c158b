#include "bridge.h"
#include <exception>
#include <pthread.h>
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C13";
const char *const kRule =
    "a case is one expression of 20000..60000 levels (1500..2000 for Diff) in a random shape (left, right, unary, mixed, texts of nested "
    "parentheses, signs, calls, power chains, flat chains) or one token of 100000..300000 characters, put through every operation in a thread with a "
    "256 KiB stack; values come from a loop over the levels, texts from the texts of two-level expressions. Non-trivial: all (each is beyond the stated minimum).";
const Knobs kKnobs = {60, 300, false};

namespace {
struct Level { // one node on top of the tree so far
    int kind;  // 0 unary, 1 leaf on the right, 2 leaf on the left
    Op op;
    double c;  // leaf: number, or
    int var;   // 0 none, 1 x, 2 y
};
const double X = 0.75, Y = -1.25;
const char *vn(int k) { return k == 1 ? "x" : "y"; }
ts::Node leaf(const Level &l) { return l.var ? ts::Var(vn(l.var)) : ts::Num(l.c); }
double leafV(const Level &l) { return l.var == 1 ? X : l.var == 2 ? Y : l.c; }
ts::Node put(const Level &l, ts::Node n) {
    if (l.kind == 0) return unary(l.op, std::move(n));
    if (l.kind == 1) return binary(l.op, std::move(n), leaf(l));
    return binary(l.op, leaf(l), std::move(n));
}
Level genLevel(Src &s, int shape, int funcs, bool xToo) {
    Level l;
    l.c = (double)s.range(1, 3);
    l.var = (int)(s.draw(8) == 7 ? (xToo ? s.range(1, 2) : 2) : 0);
    l.kind = shape == 0 ? 1 : shape == 1 ? 2 : shape == 2 ? 0 : (int)s.draw(3);
    if (l.kind == 0) {
        if (funcs && (int)s.draw(8) < funcs) l.op = s.pick({Op::SIN, Op::COS, Op::ATAN});
        else l.op = s.draw(3) ? Op::NEG : Op::POS;
    } else {
        l.op = s.pick({Op::ADD, Op::SUB, Op::ADD, Op::SUB, Op::MUL, Op::DIV});
        if (l.op == Op::MUL || l.op == Op::DIV) {
            l.var = 0;
            l.c = l.op == Op::DIV ? 2 : 0.5;
            if (l.op == Op::DIV && l.kind == 2) l.op = Op::MUL, l.c = 0.25;
        }
    }
    return l;
}
struct Spec {
    int mode;
    std::vector<Level> lv;
    int depth, sub;
    std::string name;
};

std::string expectedText(const std::vector<Level> &lv) {
    // the text of a tower is assembled from the texts of its two-level pieces
    std::map<std::string, std::pair<std::string, std::string>> memo;
    std::string pre, post;
    for (size_t i = 0; i < lv.size(); i++) {
        std::string k = i == 0 ? "leaf" : std::to_string(lv[i - 1].kind) + "," + std::to_string((int)lv[i - 1].op);
        k += "|" + std::to_string(lv[i].kind) + "," + std::to_string((int)lv[i].op) + "," + fmt(lv[i].c) + "," + std::to_string(lv[i].var);
        auto it = memo.find(k);
        if (it == memo.end()) {
            ts::Node in = ts::Var("q");
            std::string innerText = "q";
            if (i > 0) { in = put(lv[i - 1], std::move(in)); innerText = in->ToString(); }
            std::string t = put(lv[i], std::move(in))->ToString();
            size_t at = t.find(innerText);
            REQUIRE(at != std::string::npos, "text ", t, " does not contain the text ", innerText, " of its operand");
            it = memo.insert({k, {t.substr(0, at), t.substr(at + innerText.size())}}).first;
        }
        std::string p = it->second.first;
        std::reverse(p.begin(), p.end());
        pre += p; // reversed
        post += it->second.second;
    }
    std::reverse(pre.begin(), pre.end());
    return pre + "x" + post;
}

void operations(const Spec &sp) {
    const auto &lv = sp.lv;
    ts::Node n = ts::Var("x");
    double v = X;
    std::set<std::string> names = {"x"};
    for (auto &l : lv) {
        n = put(l, std::move(n));
        if (l.kind && l.var) names.insert(vn(l.var));
        v = l.kind == 0 ? apply(l.op, v, 0) : l.kind == 1 ? apply(l.op, v, leafV(l)) : apply(l.op, leafV(l), v);
    }
    ts::Node m = ts::Clone(n);
    REQUIRE(m->Equal(n) && n->Equal(m), "a clone differs");
    m->CheckParent();
    {
        ts::Node o = -ts::Clone(n);
        REQUIRE(!o->Equal(n), "different trees are equal");
        ts::Node other = ts::Var("z"); // another leaf at the very end
        for (auto &l : lv) other = put(l, std::move(other));
        REQUIRE(!other->Equal(n) && !n->Equal(other), "trees with different deepest leaves are equal");
        *o = *n; // node assignment
        REQUIRE(o->Equal(n), "an assigned copy differs");
        ts::internal::NodeImpl copy(*n);
        ts::Node p = std::make_unique<ts::internal::NodeImpl>(std::move(copy));
        REQUIRE(p->Equal(n), "a copied node differs");
    }
    REQUIRE(n->GetAllVarNames() == names, "variable names");
    std::string text = n->ToString();
    REQUIRE(text == expectedText(lv), "text of ", lv.size(), " levels differs from its pieces: ", text.substr(0, 200), "...");
    std::ostringstream st;
    st << n;
    REQUIRE(st.str() == text, "stream output differs");
    std::map<std::string, double> at = {{"x", X}, {"y", Y}};
    ts::Node num = ts::Subs(n, at);
    double got = num->Vpa();
    REQUIRE(sameValue(got, v), "value ", got, " instead of ", v);
    {
        ts::Node by = ts::Var("x") + ts::Num(0);
        ts::Node big = ts::Subs(n, "x", n); // deep in deep: twice the depth
        big = ts::Subs(std::move(big), "x", by);
        REQUIRE(big->GetAllVarNames() == names, "variables after substitution");
    }
    {
        ts::Node s = ts::Clone(n);
        ts::Simplify(s);
        double g = ts::Subs(std::move(s), at)->Vpa();
        REQUIRE(std::fabs(g - v) <= 1e-6 * (1 + std::fabs(v)), "value after Simplify ", g, " instead of ", v);
        ts::Node k = ts::Clone(num);
        ts::Simplify(k);
        REQUIRE(k->Equal(ts::Num(v)), "a deep constant simplifies to ", k->ToString().substr(0, 100), " instead of ", v);
    }
    num->Calc();
    REQUIRE(num->Equal(ts::Num(v)), "Calc gives ", num->ToString().substr(0, 100), " instead of ", v);
    ts::Node back = ts::Parse(text);
    REQUIRE(back->GetAllVarNames() == names, "variables of the parsed text");
    got = ts::Subs(std::move(back), at)->Vpa();
    REQUIRE(std::fabs(got - v) <= 1e-6 * (1 + std::fabs(v)), "the parsed text has value ", got, " instead of ", v);
    bool threw = false;
    try { n->Vpa(); } catch (const std::runtime_error &) { threw = true; }
    REQUIRE(threw, "evaluating with unbound variables returned");
    n += n; // also onto itself
    REQUIRE(n->GetAllVarNames() == names, "variables after +=");
}

void derivative(const Spec &sp) {
    ts::Node n = ts::Var("x");
    double v = X, d = 1, mass = 1;
    for (auto &l : sp.lv) {
        n = put(l, std::move(n));
        double lvv = l.kind ? leafV(l) : 0, ld = l.kind && l.var == 1 ? 1 : 0, f = 1;
        switch (l.op) {
        case Op::NEG: f = -1; v = -v; break;
        case Op::POS: break;
        case Op::SIN: f = std::cos(v); v = std::sin(v); break;
        case Op::COS: f = -std::sin(v); v = std::cos(v); break;
        case Op::ATAN: f = 1 / (1 + v * v); v = std::atan(v); break;
        case Op::ADD: v += lvv; break;
        case Op::SUB: if (l.kind == 1) { v -= lvv; ld = -ld; } else { v = lvv - v; f = -1; } break;
        case Op::MUL: v *= lvv; f = lvv; break;
        default: v /= lvv; f = 1 / lvv; break;
        }
        d = f * d + ld;
        mass = std::fabs(f) * mass + std::fabs(ld);
    }
    std::string before = n->ToString();
    ts::Node r = ts::Diff(n, "x");
    REQUIRE(n->ToString() == before, "Diff changed its argument");
    double g = valueAt(r, {{"x", X}, {"y", Y}});
    REQUIRE(std::fabs(g - d) <= 1e-6 * mass + 1e-12, "derivative of ", sp.lv.size(), " levels is ", g, " instead of ", d);
    r = ts::Diff(std::move(n), "absent");
    g = valueAt(r, {{"x", X}, {"y", Y}});
    REQUIRE(g == 0, "derivative by an absent variable is ", g);
}

void texts(const Spec &sp) {
    int d = sp.depth;
    std::string t;
    double want = X;
    auto rep = [&](const std::string &u, int k) { std::string r; r.reserve(u.size() * (size_t)k); while (k--) r += u; return r; };
    switch (sp.sub) {
    case 0: t = rep("(", d) + "x" + rep(")", d); break;
    case 1: t = rep("-", d) + "x"; want = d % 2 ? -X : X; break;
    case 2: t = rep("(-", d) + "x" + rep(")", d); want = d % 2 ? -X : X; break;
    case 3: t = rep("cos(", d) + "x" + rep(")", d); for (int i = 0; i < d; i++) want = std::cos(want); break;
    case 4: t = "x" + rep("+1", d); for (int i = 0; i < d; i++) want += 1; break;
    case 5: t = "x" + rep("^1", d); break;
    case 6: t = rep("1-(", d) + "x" + rep(")", d); for (int i = 0; i < d; i++) want = 1 - want; break;
    case 7: t = rep("(", d) + "x" + rep("*1)", d); break;
    case 8: t = rep(" \t\n", d) + "x" + rep("\r ", d); break;
    case 9: t = rep("2^(0*", d) + "x" + rep(")", d); { double w = X; for (int i = 0; i < d; i++) w = std::pow(2, 0 * w); want = w; } break;
    case 10: t = "x" + rep("-1", d); for (int i = 0; i < d; i++) want -= 1; break;
    case 11: t = rep("1^", d) + "x"; want = 1; break;
    case 12: case 13: case 14: { // malformed and just as deep
        t = sp.sub == 12 ? rep("(", d) + "x" : sp.sub == 13 ? rep("(", d) + "x" + rep(")", d + 1) : rep("sin(", d) + rep(")", d);
        bool threw = false;
        try { ts::Parse(t); } catch (const std::runtime_error &) { threw = true; }
        REQUIRE(threw, "a malformed deep text was accepted");
        return;
    }
    default: break;
    }
    ts::Node n = ts::Parse(t);
    n->CheckParent();
    REQUIRE(n->GetAllVarNames() == std::set<std::string>{"x"}, "variables of a deep text");
    double g = valueAt(n, {{"x", X}});
    REQUIRE(sameValue(g, want), "deep text kind ", sp.sub, " of ", d, " levels has value ", g, " instead of ", want);
    std::string u = n->ToString();
    ts::Node m = ts::Parse(u);
    g = valueAt(m, {{"x", X}});
    REQUIRE(std::fabs(g - want) <= 1e-6 * (1 + std::fabs(want)), "printed and parsed again it has value ", g);
    ts::Simplify(n);
    g = valueAt(n, {{"x", X}});
    REQUIRE(std::fabs(g - want) <= 1e-6 * (1 + std::fabs(want)), "simplified it has value ", g);
}

void tokens(const Spec &sp) {
    int d = sp.depth;
    const std::string &name = sp.name;
    switch (sp.sub) {
    case 0: {
        REQUIRE(ts::VarNameIsLegal(name), "a long name is not legal");
        ts::Node v = ts::Var(name), n = ts::Parse("2*" + name + "+1");
        REQUIRE(v->ToString() == name && n->GetAllVarNames() == std::set<std::string>{name}, "a long name is not kept");
        REQUIRE(valueAt(n, {{name, 4.0}}) == 9, "value with a long name");
        REQUIRE(valueAt(ts::Diff(n, name), {{name, 4.0}}) == 2, "derivative by a long name");
        bool threw = false;
        try { ts::Var(name + "$"); } catch (const std::runtime_error &) { threw = true; }
        REQUIRE(threw && !ts::VarNameIsLegal(name + "-"), "a long illegal name was accepted");
        break;
    }
    case 1: {
        std::string t = "1." + std::string((size_t)d, '3');
        REQUIRE(ts::Parse(t)->Vpa() == strtod(t.c_str(), nullptr), "a long fraction");
        break;
    }
    case 2: REQUIRE(ts::Parse(std::string((size_t)d, '0') + "5.25")->Vpa() == 5.25, "a literal with many leading zeros"); break;
    case 3: {
        std::string t = "1" + std::string(300, '0') + "." + std::string((size_t)d, '0') + "1e-299";
        REQUIRE(ts::Parse(t)->Vpa() == strtod(t.c_str(), nullptr), "a long literal with an exponent");
        break;
    }
    default: { // a long illegal token
        bool threw = false;
        try { ts::Parse("x+" + name + "$y"); } catch (const std::runtime_error &) { threw = true; }
        REQUIRE(threw, "a long illegal token was accepted");
    }
    }
}

struct Job { const Spec *sp; std::exception_ptr err; };
void *threadMain(void *p) {
    Job *j = (Job *)p;
    try {
        switch (j->sp->mode) {
        case 0: operations(*j->sp); break;
        case 1: derivative(*j->sp); break;
        case 2: texts(*j->sp); break;
        default: tokens(*j->sp); break;
        }
    } catch (...) {
        j->err = std::current_exception();
    }
    return nullptr;
}
} // namespace

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    Spec sp;
    static const int modes[] = {0, 0, 0, 1, 1, 2, 2, 2, 3};
    sp.mode = modes[s.draw(9)];
    sp.sub = 0;
    int shape = 0, funcs = 0;
    if (sp.mode <= 1) {
        shape = (int)s.draw(4);
        funcs = (int)s.draw(sp.mode == 1 ? 3 : 9);
        sp.depth = sp.mode == 0 ? (int)s.range(20000, s.draw(4) ? 24000 : 60000) : (int)s.range(1500, 2000);
        // level kinds repeat with a period, so that few choices describe a deep tree
        int period = (int)s.range(1, 40);
        std::vector<Level> base;
        for (int i = 0; i < period; i++) base.push_back(genLevel(s, shape, funcs, sp.mode == 1));
        for (int i = 0; i < sp.depth; i++) sp.lv.push_back(base[(size_t)(i % period)]);
    } else if (sp.mode == 2) {
        sp.sub = (int)s.draw(15);
        sp.depth = (int)s.range(20000, s.draw(4) ? 30000 : 100000);
    } else {
        sp.sub = (int)s.draw(5);
        sp.depth = (int)s.range(100000, 300000);
        std::string pat = "a";
        int k = (int)s.draw(5);
        for (int i = 0; i < k; i++) pat += s.pick({'b', '_', 'Z', '7', 'x'});
        while ((int)sp.name.size() < sp.depth) sp.name += pat;
    }
    c.describe([&](std::ostream &q) { q << "mode " << sp.mode << (sp.mode == 0 ? " operations" : sp.mode == 1 ? " derivative" : sp.mode == 2 ? " text" : " token") << " shape/kind " << (sp.mode <= 1 ? shape : sp.sub) << " depth " << sp.depth; });
    c.label(std::string(sp.mode == 0 ? "operations shape " : sp.mode == 1 ? "derivative shape " : sp.mode == 2 ? "text kind " : "token kind ") + std::to_string(sp.mode <= 1 ? shape : sp.sub));
    c.nontrivial = true;
    Job j{&sp, nullptr};
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 256 * 1024);
    pthread_t t;
    if (pthread_create(&t, &a, threadMain, &j)) throw Discard();
    pthread_join(t, nullptr);
    pthread_attr_destroy(&a);
    if (j.err) std::rethrow_exception(j.err);
}
