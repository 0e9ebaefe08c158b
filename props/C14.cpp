#include "bridge.h"
using namespace pbt;
using namespace bridge;
const char *const kPropertyId = "C14";
const char *const kRule =
    "a case is a random shape up to 9x9 (sometimes one side up to 40, or up to 260 with the other at most 3) with small-integer, real, extreme or eps-scale entries: either every "
    "operation once against naive reference arithmetic, or a history of up to 15 in-place operations (swaps, resize, fill, +=, row/column assignment, element "
    "writes, copies) against a vector-of-vectors model. Non-trivial: more than one element.";
const Knobs kKnobs = {30, 400000, false};

namespace {
typedef std::vector<std::vector<double>> M;
typedef std::valarray<double> VA;
double entry(Src &s, int style) {
    switch (style) {
    case 0: return (double)s.range(-4, 4);
    case 1: return (double)s.range(-100, 100) + s.unit();
    case 2: { double v = model::genNumber(s, 2); return std::fabs(v) > 1e100 ? 3 : s.coin() ? -v : v; }
    default: return s.pick({0.0, 1e-9, -1e-9, 5e-10, 2e-9, 1.0, -1.0, 1.0 + 5e-10, 0.25, -0.5, 0.5});
    }
}
M gen(Src &s, int r, int k, int style) {
    M m((size_t)r, std::vector<double>((size_t)k));
    for (auto &q : m) for (auto &v : q) v = entry(s, style);
    return m;
}
ts::Mat toMat(Src &s, const M &m) {
    int r = (int)m.size(), k = (int)m[0].size();
    if (s.coin()) {
        ts::Mat a(r, k);
        for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) a.Value(i, j) = m[i][j];
        return a;
    }
    VA d((size_t)(r * k));
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) d[(size_t)(i * k + j)] = m[i][j];
    return ts::Mat(r, k, d);
}
ts::Vec toVec(const std::vector<double> &v) { return ts::Vec(VA(v.data(), v.size())); }
std::string str(const M &m) {
    std::ostringstream o;
    o.precision(17);
    o << "[";
    for (auto &r : m) { o << (&r == &m[0] ? "" : "; "); for (auto &v : r) o << (&v == &r[0] ? "" : " ") << v; }
    o << "]";
    return o.str();
}
bool eq(double a, double b) { return a == b || (a != a && b != b); }
void same(const char *what, const ts::Mat &a, const M &m) {
    REQUIRE(a.Rows() == (int)m.size() && a.Cols() == (int)m[0].size(), what, " has shape ", a.Rows(), "x", a.Cols(), " instead of ", m.size(), "x", m[0].size());
    for (int i = 0; i < a.Rows(); i++) for (int j = 0; j < a.Cols(); j++)
        REQUIRE(eq(a.Value(i, j), m[i][j]), what, ": element (", i, ", ", j, ") is ", a.Value(i, j), " instead of ", m[i][j], " in ", str(m));
}
void near(const char *what, double got, long double want, long double mass) {
    if (eq(got, (double)want)) return;
    REQUIRE(std::isfinite((double)want), what, " is ", got, " instead of ", (double)want);
    REQUIRE(std::fabs((double)(got - want)) <= (double)(mass * 1e-12L + 1e-320L), what, " is ", got, " instead of ", (double)want);
}
template <class F> M map2(const M &a, const M &b, F f) {
    M r(a);
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r[i][j] = f(a[i][j], b[i][j]);
    return r;
}
template <class F> bool all(const M &a, F f) {
    for (auto &r : a) for (auto v : r) if (!f(v)) return false;
    return true;
}
template <class F> bool all2(const M &a, const M &b, F f) {
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) if (!f(a[i][j], b[i][j])) return false;
    return true;
}

void once(Case &c) {
    Src &s = c.s;
    int r = (int)s.range(1, 7), k = (int)s.range(1, 7);
    if (s.draw(8) == 7) { (s.coin() ? r : k) = (int)s.range(8, 40); }
    if (s.draw(80) == 79) { r = (int)s.range(1, 3); k = (int)s.range(41, 260); if (s.coin()) std::swap(r, k); c.label("long"); }
    if (s.draw(5) == 4) k = 1;
    int style = (int)s.draw(4);
    M a = gen(s, r, k, style), b = gen(s, r, k, style);
    if (s.draw(3) == 0) { // nearly equal, around the epsilon boundary
        b = a;
        int t = (int)s.draw(3);
        for (int q = 0; q < t; q++) b[s.draw((uint64_t)r)][s.draw((uint64_t)k)] += s.pick({0.25, -0.25, 0.5, -0.5, 1e-9, 2e-9, 5e-10, 1.0});
    }
    double eps = s.pick({1e-9, 0.5, 0.25, 1e-3, 1e-6, 0.0});
    bool nan = false;
    if (s.draw(8) == 7) { // infinities and NaN in the operands
        c.label("NaN or infinity as elements");
        for (int q = (int)s.range(1, 3); q > 0; q--) {
            double v = s.pick({(double)INFINITY, -(double)INFINITY, (double)NAN});
            nan = nan || v != v;
            (s.draw(3) ? a : b)[s.draw((uint64_t)r)][s.draw((uint64_t)k)] = v;
        }
    }
    c.describe([&](std::ostream &q) { q << "A=" << str(a) << " B=" << str(b) << " epsilon=" << eps; });
    c.key = str(a) + str(b);
    c.nontrivial = r * k > 1;
    ts::Mat A = toMat(s, a), B = toMat(s, b);
    const ts::Mat &CA = A;
    same("construction", A, a);
    // element, row and column access
    for (int q = 0; q < 2; q++) {
        int i = (int)s.draw((uint64_t)r), j = (int)s.draw((uint64_t)k), oj = (int)s.draw((uint64_t)k), oi = (int)s.draw((uint64_t)r);
        VA row = CA.Row(i, oj), row2 = A.Row(i, oj), col = CA.Col(j, oi), col2 = A.Col(j, oi), row0 = CA.Row(i), col0 = CA.Col(j);
        REQUIRE((int)row.size() == k - oj && (int)row2.size() == k - oj && (int)col.size() == r - oi && (int)col2.size() == r - oi && (int)row0.size() == k && (int)col0.size() == r, "length of a row or column");
        for (int t = 0; t < k - oj; t++) REQUIRE(eq(row[t], a[i][oj + t]) && eq(row2[t], a[i][oj + t]), "row ", i, " from ", oj, " of ", str(a));
        for (int t = 0; t < r - oi; t++) REQUIRE(eq(col[t], a[oi + t][j]) && eq(col2[t], a[oi + t][j]), "column ", j, " from ", oi, " of ", str(a));
        for (int t = 0; t < k; t++) REQUIRE(eq(row0[t], a[i][t]), "row ", i, " of ", str(a));
        for (int t = 0; t < r; t++) REQUIRE(eq(col0[t], a[t][j]), "column ", j, " of ", str(a));
    }
    // arithmetic
    same("A+B", A + B, map2(a, b, [](double x, double y) { return x + y; }));
    same("A-B", A - B, map2(a, b, [](double x, double y) { return x - y; }));
    same("-A", -A, map2(a, b, [](double x, double) { return -x; }));
    double f = entry(s, style);
    same("A*k", A * f, map2(a, b, [f](double x, double) { return x * f; }));
    same("k*A", f * A, map2(a, b, [f](double x, double) { return x * f; }));
    {
        M q = map2(a, b, [](double x, double y) { return x / y; });
        same("EachDivide(A,B)", ts::EachDivide(A, B), q);
    }
    {
        ts::Mat D(A);
        D += B;
        same("A+=B", D, map2(a, b, [](double x, double y) { return x + y; }));
        D += D;
        same("D+=D", D, map2(a, b, [](double x, double y) { return (x + y) + (x + y); }));
    }
    {   // product
        int n = (int)s.range(1, 6);
        M m = gen(s, k, n, style);
        ts::Mat P = A * toMat(s, m);
        REQUIRE(P.Rows() == r && P.Cols() == n, "shape of a product");
        for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) {
            long double w = 0, mass = 0;
            for (int t = 0; t < k; t++) { w += (long double)a[i][t] * m[t][j]; mass += fabsl((long double)a[i][t] * m[t][j]); }
            near("element of a product", P.Value(i, j), w, mass);
        }
        if (r == k) {
            ts::Mat Q = A * A;
            for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) {
                long double w = 0, mass = 0;
                for (int t = 0; t < k; t++) { w += (long double)a[i][t] * a[t][j]; mass += fabsl((long double)a[i][t] * a[t][j]); }
                near("element of A*A", Q.Value(i, j), w, mass);
            }
        }
    }
    {
        M t((size_t)k, std::vector<double>((size_t)r));
        for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) t[j][i] = a[i][j];
        same("transpose", CA.Transpose(), t);
    }
    // norms
    long double n2 = 0;
    double mx = 0, mn = std::fabs(a[0][0]), lo = a[0][0];
    for (auto &q : a) for (auto v : q) { n2 += (long double)v * v; mx = std::max(mx, std::fabs(v)); mn = std::min(mn, std::fabs(v)); lo = std::min(lo, v); }
    near("Norm2", CA.Norm2(), n2, n2);
    if (!nan) REQUIRE(CA.NormInfinity() == mx, "NormInfinity of ", str(a), " is ", CA.NormInfinity());
    if (!nan) REQUIRE(CA.NormNegInfinity() == mn, "NormNegInfinity of ", str(a), " is ", CA.NormNegInfinity());
    if (!nan) REQUIRE(CA.Min() == lo, "Min of ", str(a), " is ", CA.Min());
    // comparisons
    ts::Config::Get().epsilon = eps;
    bool special = s.draw(8) == 7;
    if (special) { // NaN is not within epsilon of anything
        int i = (int)s.draw((uint64_t)r), j = (int)s.draw((uint64_t)k);
        double v = s.pick({(double)NAN, (double)INFINITY, -(double)INFINITY});
        M &t = s.coin() ? a : b;
        t[i][j] = v;
        A = toMat(s, a);
        B = toMat(s, b);
    }
    bool e1 = A == B, w1 = all2(a, b, [eps](double x, double y) { return std::fabs(x - y) < eps; });
    REQUIRE(e1 == w1, "A==B is ", e1, " for ", str(a), " and ", str(b), " with epsilon ", eps);
    double g = s.coin() ? a[0][0] : s.pick({0.0, 1.0, 0.25, -1.0});
    bool e2 = A == g, w2 = all(a, [eps, g](double x) { return std::fabs(x - g) < eps; });
    REQUIRE(e2 == w2, "A==", g, " is ", e2, " for ", str(a), " with epsilon ", eps);
    bool boundary = !all(a, [eps](double x) { return std::fabs(x) != eps; });
    if (!boundary) REQUIRE(ts::IsZero(A) == all(a, [eps](double x) { return std::fabs(x) < eps; }), "IsZero of ", str(a), " with epsilon ", eps);
    bool l = ts::AllIsLessThan(A, B), wl = all2(a, b, [](double x, double y) { return x < y; });
    REQUIRE(l == wl, "AllIsLessThan is ", l, " for ", str(a), " and ", str(b));
    resetConfig();
    if (k == 1) {
        ts::Vec X = A.ToVec(), Y = B.ToVec();
        REQUIRE((X < Y) == wl, "x<y is ", (X < Y), " for ", str(a), " and ", str(b));
    }
    if (special) { c.label("NaN or infinity in comparisons"); return; }
    if (!nan) {   // largest absolute value in a row range of a column
        int j = (int)s.draw((uint64_t)k), i0 = (int)s.draw((uint64_t)r), i1 = (int)s.range(i0, r - 1), w = i0;
        for (int i = i0; i <= i1; i++) if (std::fabs(a[i][j]) > std::fabs(a[w][j])) w = i;
        int got = ts::GetMaxAbsRowIndex(A, i0, i1, j);
        REQUIRE(got == w, "GetMaxAbsRowIndex(", i0, ", ", i1, ", ", j, ") of ", str(a), " is ", got, " instead of ", w);
    }
    // vectors
    if (k == 1) {
        std::vector<double> x(r), y(r);
        for (int i = 0; i < r; i++) x[i] = a[i][0], y[i] = b[i][0];
        ts::Vec X = A.ToVec(), Y = toVec(y);
        same("ToVec", X, a);
        same("Vec", Y, b);
        const ts::Vec &CX = X;
        for (int i = 0; i < r; i++) REQUIRE(eq(CX[i], x[i]) && eq(X[i], x[i]), "element ", i, " of a vector");
        same("x+y", X + Y, map2(a, b, [](double p, double q) { return p + q; }));
        same("x-y", X - Y, map2(a, b, [](double p, double q) { return p - q; }));
        same("-x", -X, map2(a, b, [](double p, double) { return -p; }));
        same("x*k", X * f, map2(a, b, [f](double p, double) { return p * f; }));
        same("k*x", f * X, map2(a, b, [f](double p, double) { return p * f; }));
        same("x*y", X * Y, map2(a, b, [](double p, double q) { return p * q; }));
        same("x/y", X / Y, map2(a, b, [](double p, double q) { return p / q; }));
        long double d = 0, mass = 0;
        for (int i = 0; i < r; i++) d += (long double)x[i] * y[i], mass += fabsl((long double)x[i] * y[i]);
        near("Dot", ts::Dot(X, Y), d, mass);
        same("AsMat", X.AsMat(), a);
        int n = (int)s.range(1, 12);
        M z((size_t)n, std::vector<double>(1, 0.0));
        for (int i = 0; i < std::min(n, r); i++) z[i][0] = x[i];
        X.Resize(n);
        same("Vec::Resize", X, z);
        same("Vec(n, value)", ts::Vec(r, f), map2(a, b, [f](double, double) { return f; }));
        c.label("vector");
    } else {
        bool threw = false;
        try { CA.ToVec(); } catch (const std::runtime_error &) { threw = true; }
        REQUIRE(threw, "a matrix with ", k, " columns was converted to a vector");
    }
    same("A afterwards", A, a);
    same("B afterwards", B, b);
}

void history(Case &c) {
    Src &s = c.s;
    int style = s.draw(3) ? 0 : 1;
    int r = (int)s.range(1, 6), k = (int)s.range(1, 6);
    M m = gen(s, r, k, style);
    ts::Mat A = toMat(s, m);
    c.describe([&](std::ostream &q) { q << "start " << str(m); });
    c.key = str(m);
    int steps = s.size(6, 15);
    c.nontrivial = steps > 0 && r * k > 1;
    for (int t = 0; t < steps; t++) {
        r = (int)m.size(); k = (int)m[0].size();
        int op = (int)s.draw(13);
        std::ostringstream d;
        c.key += "," + std::to_string(op);
        switch (op) {
        case 0: { int i = (int)s.draw((uint64_t)r), j = (int)s.draw((uint64_t)r); std::swap(m[i], m[j]); A.SwapRow(i, j); d << "SwapRow " << i << " " << j; break; }
        case 1: { int i = (int)s.draw((uint64_t)k), j = (int)s.draw((uint64_t)k); for (auto &q : m) std::swap(q[i], q[j]); A.SwapCol(i, j); d << "SwapCol " << i << " " << j; break; }
        case 2: case 3: {
            int nr = (int)s.range(1, 9), nk = (int)s.range(1, 9);
            M n((size_t)nr, std::vector<double>((size_t)nk, 0.0));
            for (int i = 0; i < std::min(r, nr); i++) for (int j = 0; j < std::min(k, nk); j++) n[i][j] = m[i][j];
            m = n;
            A.Resize(nr, nk);
            d << "Resize " << nr << " " << nk;
            break;
        }
        case 4: { double v = entry(s, style); for (auto &q : m) for (auto &x : q) x = v; A.SetValue(v); d << "SetValue " << v; break; }
        case 5: {
            if (r != k || s.coin()) { for (auto &q : m) for (auto &x : q) x = 0; ts::Mat &self = A.Zero(); REQUIRE(&self == &A, "Zero returns another matrix"); d << "Zero"; }
            else { for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) m[i][j] = i == j; ts::Mat &self = A.Ones(); REQUIRE(&self == &A, "Ones returns another matrix"); d << "Ones"; }
            break;
        }
        case 6: { M n = gen(s, r, k, style); ts::Mat N = toMat(s, n); A += N; m = map2(m, n, [](double x, double y) { return x + y; }); same("right operand of +=", N, n); d << "+= " << str(n); break; }
        case 7: { // row assignment from an offset
            int i = (int)s.draw((uint64_t)r), o = (int)s.draw((uint64_t)k);
            VA v((size_t)(k - o));
            for (auto &x : v) x = entry(s, style);
            A.Row(i, o) = v;
            for (int j = o; j < k; j++) m[i][j] = v[(size_t)(j - o)];
            d << "Row " << i << " from " << o;
            break;
        }
        case 8: {
            int j = (int)s.draw((uint64_t)k), o = (int)s.draw((uint64_t)r);
            VA v((size_t)(r - o));
            for (auto &x : v) x = entry(s, style);
            A.Col(j, o) = v;
            for (int i = o; i < r; i++) m[i][j] = v[(size_t)(i - o)];
            d << "Col " << j << " from " << o;
            break;
        }
        case 9: { int i = (int)s.draw((uint64_t)r), j = (int)s.draw((uint64_t)k); double v = entry(s, style); A.Value(i, j) = v; m[i][j] = v; d << "Value " << i << " " << j << "=" << v; break; }
        case 10: { // a changed copy leaves the original
            ts::Mat C(A), D(1, 1);
            D = A;
            C.Value(0, 0) = 77;
            D.SwapRow(0, r - 1).SetValue(5);
            same("the original of a changed copy", A, m);
            ts::Mat E(std::move(C));
            A = D;
            for (auto &q : m) for (auto &x : q) x = 5;
            d << "copies";
            break;
        }
        case 11: { A = A.Transpose(); M n((size_t)k, std::vector<double>((size_t)r)); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) n[j][i] = m[i][j]; m = n; d << "A = transpose"; break; }
        default: { // chained swaps return the same object
            int i = (int)s.draw((uint64_t)r), j = (int)s.draw((uint64_t)k);
            ts::Mat &x = A.SwapRow(i, 0), &y = A.SwapCol(0, j);
            REQUIRE(&x == &A && &y == &A, "a swap returns another matrix");
            std::swap(m[i], m[0]);
            for (auto &q : m) std::swap(q[0], q[j]);
            d << "SwapRow/SwapCol " << i << " " << j;
        }
        }
        c.note(d.str());
        same(d.str().c_str(), A, m);
    }
    c.label("history");
}
} // namespace

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    if (s.draw(40) == 39) { // initialiser lists, also ragged
        double a = entry(s, 0), b = entry(s, 1), e = entry(s, 0), f = entry(s, 1);
        same("{{a},{b,e,f}}", ts::Mat{{a}, {b, e, f}}, {{a, 0, 0}, {b, e, f}});
        same("{{a,b,e},{f}}", ts::Mat{{a, b, e}, {f}}, {{a, b, e}, {f, 0, 0}});
        same("{{a,b},{},{e,f,a,b},{f}}", ts::Mat{{a, b}, {}, {e, f, a, b}, {f}}, {{a, b, 0, 0}, {0, 0, 0, 0}, {e, f, a, b}, {f, 0, 0, 0}});
        same("{{a},{b},{e},{f}}", ts::Mat{{a}, {b}, {e}, {f}}, {{a}, {b}, {e}, {f}});
        same("{{a,b,e,f,a},{b,e,f,a}}", ts::Mat{{a, b, e, f, a}, {b, e, f, a}}, {{a, b, e, f, a}, {b, e, f, a, 0}});
        same("{{a,b},{e}}", ts::Mat{{a, b}, {e}}, {{a, b}, {e, 0}});
        same("{{a},{b,e}}", ts::Mat{{a}, {b, e}}, {{a, 0}, {b, e}});
        same("{{a,b,e}}", ts::Mat{{a, b, e}}, {{a, b, e}});
        same("Vec{a,b,e}", ts::Vec{a, b, e}, {{a}, {b}, {e}});
        same("Mat(2,3,v)", ts::Mat(2, 3, a), {{a, a, a}, {a, a, a}});
        same("Mat(2,2)", ts::Mat(2, 2), {{0, 0}, {0, 0}});
        return;
    }
    if (s.draw(3)) once(c);
    else history(c);
}
