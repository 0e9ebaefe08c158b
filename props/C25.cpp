#include "bridge.h"
using namespace pbt;
using namespace bridge;
const char *const kPropertyId = "C25";
const char *const kRule =
    "a case is a numeric matrix, vector, symbolic matrix or variable table of random shape and content (zeros, integers, reals, extremes, expressions); its text is "
    "compared with one composed here from the texts of the single numbers or expressions, and the stream with the text. Non-trivial: more than one element.";
const Knobs kKnobs = {30, 40000, false, 4};

namespace {
double value(Src &s) {
    switch (s.draw(6)) {
    case 0: return (double)s.range(-9, 9);
    case 1: return s.unit() * 2 - 1;
    case 2: return (s.coin() ? 1 : -1) * model::genNumber(s, 2);
    case 3: return s.pick({0.0, -0.0, 1e16, -1e-16, 123456789.125, 1e308});
    case 4: return (double)s.range(-100000, 100000) / 64;
    default: return s.draw(8) == 7 ? s.pick({(double)INFINITY, -(double)INFINITY, std::nan("")}) : (double)s.range(-1000000, 1000000);
    }
}
std::string frame(const std::vector<std::vector<std::string>> &t) {
    std::string o = "[";
    for (size_t i = 0; i < t.size(); i++) {
        if (i) o += "\n ";
        for (size_t j = 0; j < t[i].size(); j++) o += (j ? ", " : "") + t[i][j];
    }
    return o + "]\n";
}
// the amount of blank space after a comma or at the start of a line is not part of the property
std::string squeeze(const std::string &t) {
    std::string o;
    for (char ch : t) {
        if (ch == ' ' && (o.empty() || o.back() == ' ' || o.back() == '\n' || o.back() == '[')) continue;
        o += ch;
    }
    return o;
}
template <class T> void agree(const char *what, const T &x, std::string want) {
    std::string got = x.ToString();
    REQUIRE(squeeze(got) == squeeze(want), what, " prints \"", got, "\" instead of \"", want, "\"");
    want = got;
    std::ostringstream o, p;
    p.precision(3); // number formatting does not depend on the stream
    p << std::hex << std::showpos << std::uppercase;
    o << x;
    p << x;
    REQUIRE(o.str() == want && p.str() == want, what, " streamed is \"", o.str(), "\" or \"", p.str(), "\" instead of \"", want, "\"");
    REQUIRE(x.ToString() == want, what, " prints differently the second time");
    std::ostringstream q;
    q << x << x << 1;
    REQUIRE(q.str() == want + want + "1", what, " streamed twice differs");
}
} // namespace

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    int r = (int)s.range(1, s.draw(5) ? 4 : 12), k = (int)s.range(1, s.draw(5) ? 4 : 12);
    int kind = (int)s.draw(4);
    if (s.draw(60) == 59) { // a large one
        r = (int)s.range(1, 1500);
        k = kind == 1 ? 1 : (int)s.range(1, std::max<int64_t>(1, 3000 / r));
        if (s.coin() && kind != 1) std::swap(r, k);
        c.label("large");
    }
    if (kind == 3) { // variable table
        std::map<std::string, double> m;
        std::vector<std::string> names;
        for (int i = 0; i < r * k && i < 300; i++) {
            std::string n = model::genName(s);
            if (m.count(n)) continue;
            names.push_back(n);
            m[n] = value(s);
        }
        bool listed = s.coin();
        ts::VarsTable t = listed ? ts::VarsTable(names, 0.25) : ts::VarsTable(m);
        if (listed) {
            ts::Vec v((int)names.size());
            for (size_t i = 0; i < names.size(); i++) v[i] = m[names[i]];
            t.SetValues(v);
        }
        std::string want;
        for (auto &v : m) want += v.first + " = " + ts::ToString(v.second) + "\n";
        c.describe([&](std::ostream &q) { q << want; });
        c.key = want;
        c.nontrivial = m.size() > 1;
        agree("the variable table", t, want);
        for (auto &v : m) REQUIRE(model::sameBits(t[v.first], v.second) || v.second != v.second, "printing changed the table");
        c.label("variable table");
        return;
    }
    std::vector<std::vector<std::string>> txt((size_t)r);
    if (kind == 2) { // symbolic
        bool vec = s.draw(3) == 2;
        if (vec) k = 1;
        ts::SymMat m(r, k);
        ts::SymVec v(r);
        model::GenOpts o;
        o.vars = {"x", "y", "alpha_1"};
        o.maxSize = 6;
        for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) {
            model::E e = s.draw(3) == 0 ? model::num(value(s)) : model::genExpr(s, o, (int)s.range(0, 6));
            if (e->op == model::Op::NUM && !std::isfinite(e->v)) e = model::num(1);
            m.Value(i, j) = toNode(e);
            if (vec) v[(size_t)i] = toNode(e);
            txt[(size_t)i].push_back(m.Value(i, j)->ToString());
        }
        std::string want = frame(txt);
        c.describe([&](std::ostream &q) { q << want; });
        c.key = want;
        ts::SymMat keep = m.Clone();
        agree("the symbolic matrix", m, want);
        if (vec) agree("the symbolic vector", v, want);
        REQUIRE(m == keep, "printing changed the symbolic matrix");
        c.label("symbolic");
        c.nontrivial = r * k > 1;
        return;
    }
    if (kind == 1) k = 1;
    ts::Mat m(r, k);
    ts::Vec v(r);
    std::vector<double> keep;
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) {
        double x = value(s);
        m.Value(i, j) = x;
        if (kind == 1) v[(size_t)i] = x;
        keep.push_back(x);
        txt[(size_t)i].push_back(ts::ToString(x));
    }
    std::string want = frame(txt);
    c.describe([&](std::ostream &q) { q << want; });
    c.key = want;
    agree("the matrix", m, want);
    if (kind == 1) agree("the vector", v, want);
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) REQUIRE(model::sameBits(m.Value(i, j), keep[(size_t)(i * k + j)]) || keep[(size_t)(i * k + j)] != keep[(size_t)(i * k + j)], "printing changed the matrix");
    c.label(kind == 1 ? "vector" : "matrix");
    c.nontrivial = r * k > 1;
}
