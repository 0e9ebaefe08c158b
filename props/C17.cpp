#include "bridge.h"
using namespace pbt;
using namespace bridge;
const char *const kPropertyId = "C17";
const char *const kRule =
    "a case is a pool of symbolic matrices (1..4 x 1..4 and vectors, entries random expressions over up to 4 names or plain numbers) driven through up to 8 "
    "operations (subtract, product, substitute, evaluate, clone, convert, element writes, moves), each mirrored on a matrix of reference expressions; the entries are "
    "compared structurally or by value and every other matrix must stay as it was. Non-trivial: some matrix with two or more entries was operated on.";
const Knobs kKnobs = {30, 100000, false};

namespace {
using model::E;
typedef std::vector<std::vector<E>> M; // the model: entries must be structurally equal
struct P { std::unique_ptr<ts::SymMat> a; bool isVec; M m; };
const std::vector<std::string> kNames = {"x", "y", "zed", "a_1"};

E entry(Src &s, bool numeric) {
    if (numeric) return model::num(s.draw(3) ? (double)s.range(-5, 5) : model::genNumber(s, 1));
    if (s.draw(60) == 59) return s.coin() ? model::bin(model::Op::DIV, model::num((double)s.range(-1, 1)), model::num(0)) : model::un(model::Op::LOG, model::num((double)s.range(-1, 0)));
    model::GenOpts o;
    o.vars = kNames;
    o.maxSize = 4;
    o.numStyle = 0;
    o.bitOps = s.draw(10) == 9;
    switch (s.draw(3)) { case 0: return model::var(s.pick(kNames)); case 1: return model::num((double)s.range(-5, 5)); default: return model::genExpr(s, o, (int)s.range(1, 4)); }
}
M gen(Src &s, int r, int k) {
    M m((size_t)r, std::vector<E>((size_t)k));
    bool numeric = s.draw(3) == 0;
    for (auto &q : m) for (auto &e : q) e = entry(s, numeric);
    return m;
}
std::string str(const M &m) {
    std::string o = "[";
    for (size_t i = 0; i < m.size(); i++) { if (i) o += "; "; for (size_t j = 0; j < m[0].size(); j++) o += (j ? ", " : "") + model::show(m[i][j]); }
    return o + "]";
}
void same(const char *what, const ts::SymMat &a, const M &m) {
    REQUIRE(a.Rows() == (int)m.size() && a.Cols() == (int)m[0].size(), what, " has shape ", a.Rows(), "x", a.Cols(), " instead of ", m.size(), "x", m[0].size());
    REQUIRE(!a.Empty(), what, " claims to be empty");
    for (int i = 0; i < a.Rows(); i++) for (int j = 0; j < a.Cols(); j++) {
        const ts::Node &n = a.Value(i, j);
        REQUIRE(n != nullptr, what, ": entry (", i, ", ", j, ") is null");
        REQUIRE(sameNode(n, m[i][j]), what, ": entry (", i, ", ", j, ") is ", n->ToString(), " instead of ", model::show(m[i][j]));
        n->CheckParent();
    }
}
// numbers: bit-equal values wanted after evaluation
ts::SymMat build(Src &s, const M &m, bool &isVec) {
    int r = (int)m.size(), k = (int)m[0].size();
    isVec = false;
    bool numeric = true;
    for (auto &q : m) for (auto &e : q) numeric = numeric && e->op == model::Op::NUM;
    int way = (int)s.draw(3);
    if (way == 1 && numeric) {
        ts::Mat d(r, k);
        for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) d.Value(i, j) = m[i][j]->v;
        ts::SymMat x(d);
        for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) REQUIRE(d.Value(i, j) == m[i][j]->v, "the numeric matrix changed when a symbolic one was made from it");
        return x;
    }
    if (way == 2 && r == 2 && k == 2) return {{toNode(m[0][0]), toNode(m[0][1])}, {toNode(m[1][0]), toNode(m[1][1])}};
    if (way == 2 && r == 2 && k == 3) return {{toNode(m[0][0]), toNode(m[0][1]), toNode(m[0][2])}, {toNode(m[1][0]), toNode(m[1][1]), toNode(m[1][2])}};
    if (way == 2 && r == 3 && k == 1) return {{toNode(m[0][0])}, {toNode(m[1][0])}, {toNode(m[2][0])}};
    if (way == 2 && r == 1 && k == 2) return {{toNode(m[0][0]), toNode(m[0][1])}};
    ts::SymMat x(r, k);
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) x.Value(i, j) = toNode(m[i][j]);
    return x;
}
ts::SymVec buildVec(Src &s, const M &m) {
    int r = (int)m.size();
    if (s.coin() && r == 2) return {toNode(m[0][0]), toNode(m[1][0])};
    if (s.coin() && r == 3) return {toNode(m[0][0]), toNode(m[1][0]), toNode(m[2][0])};
    ts::SymVec v(r);
    for (int i = 0; i < r; i++) v[(size_t)i] = toNode(m[i][0]);
    const ts::SymVec &cv = v;
    for (int i = 0; i < r; i++) REQUIRE(sameNode(cv[(size_t)i], m[i][0]) && &cv[(size_t)i] == &cv.Value(i, 0), "vector element ", i);
    return v;
}
void numericAgree(Case &c, const ts::SymMat &a, const ts::SymMat &b, const ts::SymMat &p) { // evaluate, then compare with the numeric operation
    Src &s = c.s;
    std::set<std::string> names;
    for (auto &n : kNames) names.insert(n);
    model::Env env = model::genEnv(s, names, 0);
    std::map<std::string, double> vals(env.begin(), env.end());
    Policy pol(false);
    ts::SymMat ea = a.Clone(), eb = b.Clone(), ep = p.Clone();
    ts::Mat A = ea.Subs(vals).Calc().ToMat(), B = eb.Subs(vals).Calc().ToMat(), C = ep.Subs(vals).Calc().ToMat(), W = A * B;
    for (int i = 0; i < W.Rows(); i++) for (int j = 0; j < W.Cols(); j++) {
        double mass = 0;
        for (int k = 0; k < A.Cols(); k++) mass += std::fabs(A.Value(i, k) * B.Value(k, j));
        double x = C.Value(i, j), y = W.Value(i, j);
        if (!std::isfinite(mass)) { // the value does not depend on the order of the terms if no finite part overflows
            double finite = 0, up = 0, down = 0;
            bool nan = false;
            for (int k = 0; k < A.Cols(); k++) {
                double t = A.Value(i, k) * B.Value(k, j);
                if (t != t) nan = true;
                else if (std::isinf(t)) (t > 0 ? up : down) = 1;
                else finite += std::fabs(t);
            }
            c.label("product with non-finite entries");
            if (finite > 1e300) continue;
            if (nan || (up != 0 && down != 0)) REQUIRE(x != x && y != y, "entry (", i, ", ", j, ") of the evaluated product is ", x, ", of the numeric product ", y, ", instead of NaN");
            else REQUIRE(x == y && std::isinf(x), "entry (", i, ", ", j, ") of the evaluated product is ", x, ", of the numeric product ", y);
            continue;
        }
        if (mass > 1e300) continue;
        REQUIRE(std::fabs(x - y) <= 1e-12 * mass + 1e-320, "entry (", i, ", ", j, ") of the evaluated product is ", x, ", of the numeric product ", y);
    }
}
void numericDifference(Case &c, const ts::SymMat &a, const ts::SymMat &b, const ts::SymMat &d) {
    std::set<std::string> names(kNames.begin(), kNames.end());
    model::Env env = model::genEnv(c.s, names, 0);
    std::map<std::string, double> vals(env.begin(), env.end());
    Policy pol(false);
    ts::Mat A = a.Clone().Subs(vals).Calc().ToMat(), B = b.Clone().Subs(vals).Calc().ToMat(), D = d.Clone().Subs(vals).Calc().ToMat();
    for (int i = 0; i < A.Rows(); i++) for (int j = 0; j < A.Cols(); j++) {
        double w = A.Value(i, j) - B.Value(i, j), mass = std::fabs(A.Value(i, j)) + std::fabs(B.Value(i, j));
        if (!std::isfinite(mass) || mass > 1e300) continue;
        REQUIRE(std::fabs(D.Value(i, j) - w) <= 1e-12 * mass + 1e-320, "entry (", i, ", ", j, ") of the evaluated difference is ", D.Value(i, j), ", of the numeric difference ", w);
        c.label("difference");
    }
}
} // namespace

// Large matrices, with a variable or a number per entry.
static void large(Case &c) {
    Src &s = c.s;
    int r = (int)s.range(1, 60), k = (int)s.range(1, 10);
    if (s.draw(4) == 3) { r = (int)s.range(100, 600); k = 1; }
    int kinds = s.pick({3, 20, 300, 1000}); // how many different variables
    ts::SymMat a(r, k), b(r, k);
    std::set<std::string> want;
    std::map<std::string, double> values;
    std::vector<double> va, vb;
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) {
        std::string n = "v" + std::to_string(s.draw((uint64_t)kinds));
        double w = (double)s.range(-9, 9);
        bool number = s.draw(6) == 5;
        if (!number) {
            if (values.count(n)) w = values[n];
            values[n] = w;
            want.insert(n);
        }
        va.push_back(w);
        a.Value(i, j) = number ? ts::Num(w) : ts::Var(n);
        vb.push_back((double)s.range(-9, 9));
        b.Value(i, j) = ts::Num(vb.back());
    }
    c.describe([&](std::ostream &o) { o << "large " << r << "x" << k << " with " << want.size() << " variables"; });
    c.key = std::to_string(r) + "," + std::to_string(k) + a.ToString();
    c.nontrivial = true;
    c.label("large");
    REQUIRE(a.GetAllVarNames() == want, "the ", want.size(), " variables of a ", r, "x", k, " matrix are not listed exactly");
    ts::SymMat d = a.Clone(), f = a - b;
    REQUIRE(d == a && a == d, "a clone of a ", r, "x", k, " matrix differs");
    int i0 = (int)s.draw((uint64_t)r), j0 = (int)s.draw((uint64_t)k);
    d.Value(i0, j0) = ts::Num(0.5);
    REQUIRE(!(d == a) && !(a == d), "equal to a matrix with another entry at (", i0, ", ", j0, ")");
    ts::SymVec v = a.ToSymVecOneByOne();
    REQUIRE(v.Rows() == r * k && v.Cols() == 1, "ToSymVecOneByOne has another shape");
    for (int i = 0; i < r * k; i++) REQUIRE(v[(size_t)i]->Equal(a.Value(i / k, i % k)), "ToSymVecOneByOne: entry ", i);
    ts::Mat x = a.Subs(values).Calc().ToMat(), y = f.Subs(values).Calc().ToMat(), z = v.Subs(ts::VarsTable(values)).Calc().ToMat();
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) {
        double w = va[(size_t)(i * k + j)];
        REQUIRE(x.Value(i, j) == w && z.Value(i * k + j, 0) == w, "the value of entry (", i, ", ", j, ") is ", x.Value(i, j), " instead of ", w);
        REQUIRE(y.Value(i, j) == w - vb[(size_t)(i * k + j)], "the difference at (", i, ", ", j, ") is ", y.Value(i, j));
    }
    REQUIRE(ts::SymMat(x).ToMat().Value(i0, j0) == x.Value(i0, j0), "to symbolic and back");
    if (r <= 60 && k > 1) { // product with a numeric column
        ts::SymMat col(k, 1);
        for (int j = 0; j < k; j++) col.Value(j, 0) = ts::Num((double)(j % 5 - 2));
        ts::Mat p = (ts::SymMat(x) * col).Calc().ToMat();
        for (int i = 0; i < r; i++) {
            double w = 0;
            for (int j = 0; j < k; j++) w += x.Value(i, j) * (j % 5 - 2);
            REQUIRE(p.Value(i, 0) == w, "row ", i, " of the product is ", p.Value(i, 0), " instead of ", w);
        }
    }
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    if (s.draw(60) == 59) { large(c); return; }
    std::vector<P> pool;
    auto log = [&](const std::string &t) { c.note(t); c.key += t; };
    auto add = [&](M m, bool vec) {
        bool iv = vec;
        std::unique_ptr<ts::SymMat> a;
        if (vec) a.reset(new ts::SymVec(buildVec(s, m)));
        else a.reset(new ts::SymMat(build(s, m, iv)));
        iv = vec;
        same("construction", *a, m);
        log((vec ? "vector " : "matrix ") + str(m));
        pool.push_back({std::move(a), iv, std::move(m)});
    };
    int dims[3] = {(int)s.range(1, 4), (int)s.range(1, 4), (int)s.range(1, 3)};
    auto dim = [&] { return dims[s.draw(3)]; };
    int start = (int)s.range(1, 3);
    for (int i = 0; i < start; i++) { bool v = s.draw(4) == 3; int r = dim(); add(gen(s, r, v ? 1 : dim()), v); }
    int ops = (int)s.range(1, 8);
    for (int t = 0; t < ops; t++) {
        size_t i = s.draw(pool.size()), j = s.draw(pool.size());
        P &p = pool[i], &q = pool[j];
        int r = (int)p.m.size(), k = (int)p.m[0].size();
        if (r * k > 1) c.nontrivial = true;
        bool small = true; // products grow the entries
        for (auto &a : pool) for (auto &row : a.m) for (auto &e : row) small = small && model::size(e) < 300;
        auto num = [&](int v) { return std::to_string(v); };
        switch (s.draw(14)) {
        case 0: { // subtraction
            if (q.m.size() != p.m.size() || q.m[0].size() != p.m[0].size() || !small) break;
            log("m" + num((int)pool.size()) + " = m" + num((int)i) + " - m" + num((int)j));
            M m = p.m;
            for (int a = 0; a < r; a++) for (int b = 0; b < k; b++) m[a][b] = model::bin(model::Op::SUB, p.m[a][b], q.m[a][b]);
            P n{nullptr, false, m};
            if (p.isVec && q.isVec && s.coin()) { n.a.reset(new ts::SymVec(static_cast<ts::SymVec &>(*p.a) - static_cast<ts::SymVec &>(*q.a))); n.isVec = true; }
            else n.a.reset(new ts::SymMat(*p.a - *q.a));
            REQUIRE(n.a->Rows() == r && n.a->Cols() == k, "the difference has shape ", n.a->Rows(), "x", n.a->Cols());
            bool textbook = true;
            for (int a = 0; a < r; a++) for (int b = 0; b < k; b++) textbook = textbook && sameNode(n.a->Value(a, b), m[a][b]);
            numericDifference(c, *p.a, *q.a, *n.a);
            if (textbook) pool.push_back(std::move(n));
            break;
        }
        case 1: case 2: { // product
            if (!small) break;
            log("m" + num((int)pool.size()) + " = m" + num((int)i) + " * m" + num((int)j));
            if (k != (int)q.m.size()) {
                try { ts::SymMat bad = *p.a * *q.a; fail("the product of a " + num(r) + "x" + num(k) + " and a " + num((int)q.m.size()) + "x" + num((int)q.m[0].size()) + " matrix did not throw"); }
                catch (const std::runtime_error &) { c.label("product shape error"); }
                break;
            }
            ts::SymMat x = *p.a * *q.a;
            int n = (int)q.m[0].size();
            REQUIRE(x.Rows() == r && x.Cols() == n, "the product has shape ", x.Rows(), "x", x.Cols());
            numericAgree(c, *p.a, *q.a, x);
            // its own entries become the model, by a round trip through the reference value at random points
            M m((size_t)r, std::vector<E>((size_t)n));
            bool textbook = true; // usual form: ((a0*b0)+a1*b1)+...
            for (int a = 0; a < r; a++) for (int b = 0; b < n; b++) {
                E e;
                for (int z = 0; z < k; z++) { E f = model::bin(model::Op::MUL, p.m[a][z], q.m[z][b]); e = e ? model::bin(model::Op::ADD, e, f) : f; }
                m[a][b] = e;
                textbook = textbook && sameNode(x.Value(a, b), e);
            }
            c.label("product");
            if (textbook) pool.push_back({std::unique_ptr<ts::SymMat>(new ts::SymMat(std::move(x))), false, m});
            break;
        }
        case 3: case 4: { // substitution in place
            std::map<std::string, double> vals;
            for (auto &n : kNames) if (s.draw(3)) vals[n] = model::genNumber(s, 0);
            if (s.coin()) for (auto &n : kNames) vals.insert({n, (double)s.range(-3, 3)});
            std::map<std::string, E> me;
            std::string d = "m" + num((int)i) + ".Subs(";
            for (auto &v : vals) { me[v.first] = model::num(v.second); d += v.first + "=" + model::fmt(v.second) + " "; }
            log(d + ")");
            ts::SymMat *ret;
            if (s.coin() && !vals.empty()) { ts::VarsTable tab(vals); ret = &p.a->Subs(tab); }
            else ret = &p.a->Subs(vals);
            REQUIRE(ret == p.a.get(), "Subs does not return the matrix itself");
            for (auto &row : p.m) for (auto &e : row) e = model::subst(e, me);
            break;
        }
        case 5: case 6: { // evaluation of a clone, and to numbers
            log("evaluate m" + num((int)i));
            bool bound = true, bad = false;
            for (auto &row : p.m) for (auto &e : row) { model::Eval v = model::eval(e, {}); bound = bound && model::vars(e).empty(); bad = bad || v.invalid; }
            bool throwing = s.coin();
            ts::SymMat w = p.a->Clone();
            try {
                Policy pol(throwing);
                ts::SymMat *ret = &w.Calc();
                REQUIRE(ret == &w, "Calc does not return the matrix itself");
                REQUIRE(bound && !(bad && throwing), "Calc returned for ", str(p.m));
                ts::Mat d = w.ToMat();
                REQUIRE(d.Rows() == r && d.Cols() == k, "ToMat has another shape");
                for (int a = 0; a < r; a++) for (int b = 0; b < k; b++) {
                    double v = model::eval(p.m[a][b], {}).v;
                    REQUIRE(model::sameValue(d.Value(a, b), v), "entry (", a, ", ", b, ") of ", str(p.m), " evaluates to ", d.Value(a, b), " instead of ", v);
                }
                c.label("evaluated");
            } catch (const std::runtime_error &e) { REQUIRE(!bound || (bad && throwing), "Calc of ", str(p.m), " threw ", e.what()); c.label("evaluation error"); }
            break;
        }
        case 7: { // numbers without evaluation: literal entries only
            bool lit = true;
            for (auto &row : p.m) for (auto &e : row) lit = lit && e->op == model::Op::NUM;
            try {
                ts::Mat d = p.a->ToMat();
                REQUIRE(lit, "ToMat returned for ", str(p.m));
                for (int a = 0; a < r; a++) for (int b = 0; b < k; b++) REQUIRE(d.Value(a, b) == p.m[a][b]->v, "ToMat entry (", a, ", ", b, ")");
                ts::SymMat back(d);
                REQUIRE(back == *p.a, "matrix to numbers and back is not equal");
                c.label("ToMat");
            } catch (const std::runtime_error &) { REQUIRE(!lit, "ToMat threw for ", str(p.m)); c.label("ToMat error"); }
            break;
        }
        case 8: { // to a vector
            log("m" + num((int)i) + " to vector");
            try {
                ts::SymVec v = p.a->ToSymVec();
                REQUIRE(k == 1, "ToSymVec of a ", r, "x", k, " matrix returned");
                pool.push_back({std::unique_ptr<ts::SymMat>(new ts::SymVec(std::move(v))), true, p.m});
            } catch (const std::runtime_error &) { REQUIRE(k != 1, "ToSymVec of a column threw"); }
            break;
        }
        case 9: { // row-major listing
            log("m" + num((int)i) + " one by one");
            ts::SymVec v = p.a->ToSymVecOneByOne();
            M m;
            for (auto &row : p.m) for (auto &e : row) m.push_back({e});
            pool.push_back({std::unique_ptr<ts::SymMat>(new ts::SymVec(std::move(v))), true, m});
            break;
        }
        case 10: { // clone
            log("clone m" + num((int)i));
            ts::SymMat x = p.a->Clone();
            REQUIRE(x == *p.a, "a clone is not equal");
            for (int a = 0; a < r; a++) for (int b = 0; b < k; b++) REQUIRE(&*x.Value(a, b) != &*p.a->Value(a, b), "a clone shares an entry");
            M m = p.m;
            pool.push_back({std::unique_ptr<ts::SymMat>(new ts::SymMat(std::move(x))), false, m});
            break;
        }
        case 11: { // write one entry
            int a = (int)s.draw((uint64_t)r), b = (int)s.draw((uint64_t)k);
            E e = entry(s, false);
            log("m" + num((int)i) + "(" + num(a) + ", " + num(b) + ") = " + model::show(e));
            p.m[a][b] = e;
            p.a->Value(a, b) = toNode(e);
            break;
        }
        case 12: { // variables
            std::set<std::string> want;
            for (auto &row : p.m) for (auto &e : row) model::vars(e, want);
            std::set<std::string> got = p.a->GetAllVarNames();
            REQUIRE(got == want, "the variables of ", str(p.m), " are not listed exactly");
            c.label("variables");
            break;
        }
        default: { // equality
            bool want = p.m.size() == q.m.size() && p.m[0].size() == q.m[0].size();
            if (want) for (int a = 0; a < r; a++) for (int b = 0; b < k; b++) want = want && model::same(p.m[a][b], q.m[a][b]);
            REQUIRE((*p.a == *q.a) == want && (*q.a == *p.a) == want, "equality of ", str(p.m), " and ", str(q.m), " is not ", want);
            if (want && i != j) c.label("equal");
            // one entry almost the same, or another shape of the same entries
            M m = p.m;
            size_t a = s.draw((uint64_t)r), b = s.draw((uint64_t)k);
            bool same = s.draw(4) == 0;
            if (!same) m[a][b] = model::nearMiss(s, m[a][b]);
            bool isVec;
            ts::SymMat x = build(s, m, isVec);
            bool eq = model::same(m[a][b], p.m[a][b]);
            REQUIRE((*p.a == x) == eq && (x == *p.a) == eq, "equality of ", str(p.m), " and ", str(m), " is not ", eq);
            c.label("near miss");
            break;
        }
        }
        for (size_t z = 0; z < pool.size(); z++) same(("m" + std::to_string(z)).c_str(), *pool[z].a, pool[z].m);
        if (pool.size() > 7) break;
    }
}
