#include "bridge.h"
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C01";
const char *const kRule =
    "a case is one well-formed text drawn from a random expression tree (random literals, spellings, white space and redundant "
    "parentheses), one numeric literal or one identifier; the parsed expression is compared with the reference tree: variables, and the "
    "value, bit for bit, at four assignments. Non-trivial: a tree with at least two operators whose reference value is not NaN at one of the "
    "assignments, a literal that is not a plain small integer, or an identifier of at least two characters.";
const Knobs kKnobs = {30, 60000, false};

static void checkText(Case &c, const std::string &text, const E &e) {
    ts::Node n = ts::Parse(text);
    auto names = n->GetAllVarNames();
    auto want = vars(e);
    REQUIRE(names == want, "variables of \"", text, "\" differ");
    for (int k = 0; k < 4; k++) {
        Env env;
        double v = NAN;
        for (int t = 0; t < 6; t++) { // look for an assignment where the reference is a number
            env = genEnv(c.s, want, k == 0 ? 0 : k == 1 ? 3 : 1);
            v = eval(e, env).v;
            if (v == v) break;
        }
        double got = valueAt(n, env);
        REQUIRE(sameBits(v, got), "text \"", text, "\" means ", show(e), " = ", v, " at ", showEnv(env), " but evaluates to ", got);
        if (v == v && v - v == 0) c.nontrivial = true;
    }
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    switch (s.draw(8)) {
    default: {
        GenOpts o;
        int nv = (int)s.range(1, 3);
        for (int i = 0; i < nv; i++) o.vars.push_back(i && s.draw(3) == 2 ? genNameLike(s, o.vars.back()) : genName(s));
        o.negativeNumbers = false;
        o.bitOps = s.coin();
        o.functions = s.draw(3) != 0;
        o.numStyle = (int)s.draw(8) < 5 ? 0 : s.coin() ? 1 : 2;
        o.maxSize = 24;
        E e = genExpr(s, o);
        std::string t = genText(s, e);
        if (s.draw(128) == 127) { // a long or deeply nested text of the same meaning
            int n = bigCount(s);
            switch (s.draw(4)) {
            case 0: t = std::string((size_t)n, '(') + t + std::string((size_t)n, ')'); break;
            case 1: t = std::string((size_t)n, s.pick({' ', '\t', '\n'})) + t + std::string((size_t)s.range(0, n), ' '); break;
            case 2: t = "(" + t + ")" + std::string((size_t)n, ' ') + s.pick({"+0", "-0", "*1", "/1", "^1"}); if (t.back() == '0') e = bin(t[t.size() - 2] == '+' ? Op::ADD : Op::SUB, e, num(0)); else e = bin(t[t.size() - 2] == '*' ? Op::MUL : t[t.size() - 2] == '/' ? Op::DIV : Op::POW, e, num(1)); break;
            default: { // a long chain
                n = std::min(n, 1100);
                std::string head = "(" + t + ")";
                bool sub = s.coin();
                for (int i = 0; i < n; i++) { head += sub ? "-1" : "+" + std::to_string(i % 7); e = bin(sub ? Op::SUB : Op::ADD, e, num(sub ? 1 : i % 7)); }
                t = head;
            }
            }
            c.label("long text");
        }
        c.describe([&](std::ostream &q) { q << "parse \"" << t << "\" reference " << show(e); });
        checkText(c, t, e);
        int ops = size(e);
        if (ops < 4) c.nontrivial = false;
        c.key = t;
        if (o.bitOps && containsBitOp(e)) c.label("bit operators");
        if (t.find_first_of("\t\n\v\f\r") != std::string::npos) c.label("white space other than blank");
        return;
    }
    case 6: { // literal
        std::string t;
        switch (s.draw(4)) {
        case 0: t = numText(s, genNumber(s, 2), false); break;
        case 1: { // at or next to the midpoint of two doubles, written in full
            double d = std::ldexp(1 + s.unit(), (int)s.range(-40, 60));
            if (s.draw(4) == 3) d = (double)s.range(1, 9) * (s.coin() ? 1 : 0x1p40);
            long double mid = ((long double)d + (long double)std::nextafter(d, INFINITY)) / 2;
            char buf[400];
            snprintf(buf, sizeof buf, "%.120Lf", mid);
            t = buf;
            while (t.back() == '0') t.pop_back();
            if (t.back() == '.') t += "0";
            switch (s.draw(4)) {
            case 0: break;
            case 1: t += std::string((size_t)s.size(1, 40), '0') + "1"; break;
            case 2: t.back() = t.back() > '0' ? (char)(t.back() - 1) : t.back(); break;
            default: t.back() = t.back() < '9' ? (char)(t.back() + 1) : t.back(); break;
            }
            if (s.draw(3) == 2) { // the same with an exponent
                size_t dot = t.find('.'), by = s.draw(dot + 1);
                t = t.substr(0, dot - by) + "." + t.substr(dot - by, by) + t.substr(dot + 1) + "e" + std::to_string(by);
            }
            c.label("midpoint");
            break;
        }
        default: {
            int a = s.size(4, 60), b = s.size(4, 60);
            for (int i = 0; i < a; i++) t += (char)('0' + s.draw(10));
            if (s.coin() || a == 0) {
                t += '.';
                if (a == 0 && b == 0) b = 1;
                for (int i = 0; i < b; i++) t += (char)('0' + s.draw(10));
            }
            if (s.coin()) {
                t += s.coin() ? 'e' : 'E';
                switch (s.draw(3)) { case 0: t += '-'; break; case 1: t += '+'; break; default: break; }
                t += std::to_string(s.range(0, s.coin() ? 20 : 280));
            }
        }
        }
        errno = 0;
        double v = strtod(t.c_str(), nullptr);
        if (errno == ERANGE || (v != 0 && std::fabs(v) < 2.3e-308)) throw Discard{};
        c.describe([&](std::ostream &q) { q << "literal \"" << t << "\" = " << fmt(v); });
        int neg = (int)s.draw(3);
        std::string full = neg == 0 ? t : neg == 1 ? "-" + t : " 1 -" + t;
        double want = neg == 0 ? v : neg == 1 ? -v : 1 - v;
        double got = ts::Parse(full)->Vpa();
        REQUIRE(sameBits(want, got), "literal ", full, " reads as ", got, " instead of ", want);
        if (neg == 0) {
            REQUIRE(ts::Parse(full)->Equal(ts::Num(v)), "literal ", full, " is not a number node");
        }
        c.nontrivial = t.size() > 2;
        c.key = full;
        c.label("literal");
        return;
    }
    case 7: { // identifier
        std::string n = genName(s);
        c.describe([&](std::ostream &q) { q << "identifier \"" << n << "\""; });
        ts::Node a = ts::Parse(n);
        std::set<std::string> want{n};
        REQUIRE(a->GetAllVarNames() == want, "identifier ", n);
        REQUIRE(a->ToString() == n && a->Equal(ts::Var(n)), "identifier ", n);
        std::string n2 = s.coin() ? genNameLike(s, n) : genName(s);
        std::string t = n + s.pick({"+", " *", "^ ", "/(", "-"}) + n2;
        if (t.find('(') != std::string::npos) t += ")";
        want.insert(n2);
        REQUIRE(ts::Parse(t)->GetAllVarNames() == want, "identifiers in ", t);
        c.nontrivial = n.size() > 1;
        c.key = t;
        c.label("identifier");
        return;
    }
    }
}
