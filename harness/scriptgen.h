// Random API scripts.
#pragma once
#include "interp.h"
#include "model.h"
#include "pbt.h"
namespace script {
inline std::string exprText(pbt::Src &s, int size) {
    static const std::vector<std::string> vars = {"x", "y", "z"};
    model::GenOpts o;
    o.vars = vars;
    o.maxSize = size;
    o.negativeNumbers = false;
    o.numStyle = (int)s.draw(2);
    o.bitOps = s.draw(6) == 5;
    o.tame = s.coin();
    return model::genText(s, model::genExpr(s, o, (int)s.range(0, size)));
}
inline double someNumber(pbt::Src &s) {
    switch (s.draw(5)) {
    case 0: return (double)s.range(-4, 4);
    case 1: return s.unit() * 10 - 5;
    case 2: return (s.coin() ? 1 : -1) * model::genNumber(s, 2);
    case 3: return s.pick({0.0, -0.0, 1e-9, 0.5, 1e300, 1.0});
    default: return (double)s.range(-100, 100) / 8;
    }
}
inline std::string someName(pbt::Src &s) { return s.draw(6) ? s.pick({std::string("x"), std::string("y"), std::string("z")}) : s.draw(3) ? model::genName(s) : s.pick({std::string("sin"), std::string("1x"), std::string(""), std::string("a b"), std::string("x.y")}); }
inline Instr instr(pbt::Src &s, bool configs) {
    Instr i;
    // the makers of values are likelier than their share
    switch (s.draw(8)) {
    case 0: i.op = s.pick({PARSE, PARSE, NUM, VAR}); break;
    case 1: i.op = s.pick({MAT, SYM_TEXTS, TABLE, SYM_NODES}); break;
    default: i.op = (int)s.draw(OPS); break;
    }
    if (!configs && (i.op == CONFIG || i.op == RESET)) i.op = SOLVE;
    i.a = (int)s.draw(60);
    i.b = (int)s.draw(60);
    i.c = (int)s.draw(60);
    i.x = someNumber(s);
    switch (i.op) {
    case PARSE: {
        std::string t = s.draw(5) ? exprText(s, 6) : model::genText(s, model::num(1)) + s.pick({std::string("+"), std::string(")"), std::string("("), std::string(" 2"), std::string("@"), std::string("*/3"), std::string(" x y")});
        i.t = {t};
        break;
    }
    case VAR: case LEGAL: i.t = {someName(s)}; break;
    case DIFF: case TABLE_USE: case SUBS_NODE: i.t = {s.draw(6) ? s.pick({std::string("x"), std::string("y")}) : someName(s)}; break;
    case SUBS_VEC: i.t = {"x", "y"}; break;
    case SUBS_NUM: case SYM_SUBS: case TABLE: {
        int k = (int)s.range(1, 3);
        for (int q = 0; q < k; q++) { i.t.push_back(s.draw(5) ? std::string(1, (char)('x' + q)) : model::genName(s)); i.v.push_back(s.coin() ? (double)s.range(-3, 3) / 2 : someNumber(s)); }
        if (i.op == TABLE && s.coin()) i.x = (double)s.range(-3, 3) / 2;
        break;
    }
    case JACOBIAN: i.t = {"x", "y"}; if (s.coin()) i.t.push_back("z"); if (s.coin()) std::swap(i.t[0], i.t[1]); break;
    case CONFIG: if (i.a % 7 == 1) i.x = s.pick({1e-9, 1e-6, 1e-3, 0.5, 0.0}); if (i.a % 7 == 3 && s.coin()) i.b = (int)s.draw(6); break;
    case MAT: case LINEAR: case TABLE_SET: case SEARCH: case MATH_OP: {
        int k = i.op == MATH_OP ? 1 : i.op == MAT ? (int)s.draw(26) : 4;
        bool ints = s.draw(3) != 0;
        for (int q = 0; q < k; q++) i.v.push_back(ints ? (double)s.range(-3, 3) : someNumber(s));
        if (i.op == MAT && s.draw(3)) { int d = (int)s.draw(3); i.a = d; i.b = s.draw(4) ? d : 0; }
        break;
    }
    case SYM_TEXTS: { // often a solvable system of as many equations as variables
        int k = (int)s.range(1, 3);
        static const char *const lines[] = {"x+y-3", "x^2-2", "y-2*x+1", "sin(x)+y", "x*y-1", "x-1", "z+x*2-y", "exp(x)-y-2", "x^2+y^2-4", "y^3-y-1", "log(x)+y", "sqrt(y)-x", "0*x", "z*z-x"};
        for (int q = 0; q < k; q++) i.t.push_back(s.draw(4) ? std::string(lines[s.draw(sizeof lines / sizeof *lines)]) : exprText(s, 4));
        break;
    }
    default: break;
    }
    return i;
}
inline Script generate(pbt::Src &s, int most, bool configs) {
    Script r;
    int n = (int)s.range(1, most);
    for (int k = 0; k < n; k++) {
        if (s.draw(8) == 7) { // a whole solve
            Instr a = instr(s, false);
            a.op = SYM_TEXTS;
            a.t = s.pick(std::vector<std::vector<std::string>>{{"x^2-2"}, {"x+y-3", "x*y-2"}, {"exp(x)-y", "y-x-1.5"}, {"x-2*y", "y-z", "z*z-x+0.25"}, {"x^2+1"}, {"x+y", "2*x+2*y-1"}});
            r.push_back(a);
            Instr t;
            t.op = TABLE;
            t.a = 1;
            for (int q = 0; q < (int)a.t.size(); q++) { t.t.push_back(std::string(1, (char)('x' + q))); t.v.push_back((double)s.range(-4, 4) / 2 + 0.1); }
            r.push_back(t);
            if (configs && s.coin()) { Instr c; c.op = CONFIG; c.a = 3; c.b = (int)s.range(2, 6); r.push_back(c); }
            Instr v;
            v.op = SOLVE;
            v.a = (int)s.draw(60);
            v.b = (int)s.draw(60);
            v.c = (int)s.draw(60);
            r.push_back(v);
            continue;
        }
        r.push_back(instr(s, configs));
    }
    return r;
}
} // namespace script
