#include "bridge.h"
#include "exact.h"
using namespace pbt;
using namespace bridge;
using exact::I;
using exact::IM;
const char *const kPropertyId = "C16";
const char *const kRule =
    "a case is a linear system: small integers with a planted rank profile (dependent or zero rows and columns, consistent or inconsistent right side), rows and "
    "columns permuted and scaled, 1..7 x 1..7, whose expected outcome comes from exact integer ranks of A and [A|b]; or a well-conditioned real system (square or "
    "wide, up to 30 unknowns) with a known solution. Non-trivial: more than one unknown or more than one equation.";
const Knobs kKnobs = {30, 300000, false};

static std::string str(const ts::Mat &A, const ts::Mat &b) {
    std::ostringstream o;
    o.precision(17);
    for (int i = 0; i < A.Rows(); i++) {
        o << (i ? "; " : "[");
        for (int j = 0; j < A.Cols(); j++) o << A.Value(i, j) << " ";
        o << "| " << b.Value(i, 0);
    }
    o << "]";
    return o.str();
}
static void unchanged(const char *what, const ts::Mat &a, const ts::Mat &b) {
    REQUIRE(a.Rows() == b.Rows() && a.Cols() == b.Cols(), what, " changed shape");
    for (int i = 0; i < a.Rows(); i++) for (int j = 0; j < a.Cols(); j++) REQUIRE(a.Value(i, j) == b.Value(i, j), what, " was modified");
}
static void satisfies(const ts::Mat &A, const ts::Vec &b, const ts::Vec &x) {
    REQUIRE(x.Rows() == A.Cols() && x.Cols() == 1, "the solution has ", x.Rows(), " rows for ", A.Cols(), " unknowns");
    double big = 0; // entries below epsilon count as zero, by design
    for (int j = 0; j < A.Cols(); j++) big = std::max(big, std::fabs(x[j]));
    for (int i = 0; i < A.Rows(); i++) {
        long double sum = 0, mass = std::fabs(b[i]);
        for (int j = 0; j < A.Cols(); j++) { sum += (long double)A.Value(i, j) * x[j]; mass += std::fabs((long double)A.Value(i, j) * x[j]); }
        // backward error of elimination: relative to the largest products in any row
        for (int r = 0; r < A.Rows(); r++) for (int j = 0; j < A.Cols(); j++) mass = std::max(mass, (long double)std::fabs(A.Value(r, j) * x[j]) * A.Cols());
        REQUIRE(std::isfinite((double)sum) && std::fabs((double)(sum - b[i])) <= 1e-9 * (double)mass + 100 * ts::Config::Get().epsilon * big, "equation ", i, " has left side ", (double)sum, " and right side ", b[i]);
    }
}
static int outcome(const ts::Mat &A, const ts::Vec &b, ts::Vec &x, std::string &what) { // -1 returned, else the error
    try { x = ts::SolveLinear(A, b); return -1; }
    catch (const ts::MathError &e) { what = e.what(); return (int)e.GetErrorType(); }
}
static const char *nameOf(int e) {
    switch (e) {
    case -1: return "a solution";
    case (int)ts::ErrorType::ERROR_OVER_DETERMINED_EQUATIONS: return "the over-determined error";
    case (int)ts::ErrorType::ERROR_SINGULAR_MATRIX: return "the singular-matrix error";
    case (int)ts::ErrorType::ERROR_INFINITY_SOLUTIONS: return "the infinitely-many-solutions error";
    case (int)ts::ErrorType::ERROR_INDETERMINATE_EQUATION: return "the indeterminate-equation error";
    default: return "another error";
    }
}

static void reals(Case &c) {
    Src &s = c.s;
    int r = s.draw(4) ? (int)s.range(1, 8) : (int)s.range(9, 30), k = s.draw(3) ? r : r + (int)s.range(1, 6);
    std::vector<int> pr((size_t)r), pc((size_t)k);
    for (int i = 0; i < r; i++) pr[i] = i;
    for (int i = 0; i < k; i++) pc[i] = i;
    for (int i = r - 1; i > 0; i--) std::swap(pr[i], pr[s.draw((uint64_t)i + 1)]);
    for (int i = k - 1; i > 0; i--) std::swap(pc[i], pc[s.draw((uint64_t)i + 1)]);
    ts::Mat A(r, k);
    ts::Vec want(k), b(r);
    double scale = s.pick({1.0, 1e3, 30.0, 1e6});
    bool sparse = s.coin();
    // entries far below the others, but far above epsilon
    double eps = s.draw(3) ? 1e-9 : s.pick({1e-11, 1e-12, 1e-13}), tiny = eps < 1e-10 && s.coin() ? s.pick({1e-6, 1e-7, 1e-8, 1e-9}) : 1;
    if (tiny != 1) scale = 1;
    for (int i = 0; i < r; i++) {
        double off = 0;
        for (int j = 0; j < k; j++) {
            double v = i == j || (sparse && s.draw(3)) ? 0 : s.unit() * 2 - 1;
            if (tiny != 1 && s.coin()) v = s.coin() ? tiny : -tiny;
            A.Value(pr[i], pc[j]) = v * scale;
            if (j < r) off += std::fabs(v); // only the square part has to be dominated
        }
        A.Value(pr[i], pc[i]) = (off * 1.5 + 0.5 + s.unit()) * (s.coin() ? 1 : -1) * scale;
    }
    for (int j = 0; j < k; j++) want[j] = s.draw(4) ? s.unit() * 20 - 10 : 0;
    for (int i = 0; i < r; i++) { long double t = 0; for (int j = 0; j < k; j++) t += (long double)A.Value(i, j) * want[j]; b[i] = (double)t; }
    c.describe([&](std::ostream &q) { q << "real " << r << "x" << k << " " << str(A, b); });
    c.key = str(A, b);
    c.nontrivial = k > 1;
    c.label(r == k ? "real square" : "real wide");
    bool allow = s.coin();
    ts::Config::Get().allowIndeterminateEquation = allow;
    ts::Config::Get().epsilon = eps;
    ts::Mat A0 = A;
    ts::Vec b0 = b, x(1);
    std::string w;
    int got = outcome(A, b, x, w), exp = r == k || allow ? -1 : (int)ts::ErrorType::ERROR_INDETERMINATE_EQUATION;
    REQUIRE(got == exp, nameOf(exp), " expected, got ", nameOf(got), " (", w, ")");
    unchanged("A", A, A0);
    unchanged("b", b, b0);
    if (got != -1) return;
    satisfies(A, b, x);
    if (r == k) for (int j = 0; j < k; j++) REQUIRE(std::fabs(x[j] - want[j]) <= (eps < 1e-10 ? 1e-10 : 1e-6), "x[", j, "] is ", x[j], " instead of ", want[j]);
}

// Few equations, many unknowns: unit pivots in chosen columns, so the rank is known without computing it.
static void veryWide(Case &c) {
    Src &s = c.s;
    int base = (int)s.range(1, 6), extra = s.draw(3) ? 0 : (int)s.range(1, 2), r = base + extra, k = r + (int)s.range(1, s.coin() ? 40 : 300);
    std::vector<std::vector<double>> m((size_t)r, std::vector<double>((size_t)k + 1));
    std::set<int> pivots;
    while ((int)pivots.size() < base) pivots.insert((int)s.draw((uint64_t)k));
    int i = 0, full = (int)s.draw(3);
    for (int p : pivots) {
        m[(size_t)i][(size_t)p] = s.pick({1.0, -1.0, 2.0});
        for (int t = full * 4; t > 0; t--) {
            int j = (int)s.draw((uint64_t)k);
            if (!pivots.count(j)) m[(size_t)i][(size_t)j] = (double)s.range(-2, 2);
        }
        m[(size_t)i++][(size_t)k] = (double)s.range(-5, 5);
    }
    bool consistent = true;
    for (; i < r; i++) { // twice one row minus another, or nothing at all
        size_t p = s.draw((uint64_t)base), q = s.draw((uint64_t)base);
        if (p != q && s.draw(4)) for (int j = 0; j <= k; j++) m[(size_t)i][(size_t)j] = 2 * m[p][(size_t)j] - m[q][(size_t)j];
        if (s.draw(4) == 0) { m[(size_t)i][(size_t)k] += s.pick({1.0, -2.0}); consistent = false; }
    }
    for (int t = r - 1; t > 0; t--) std::swap(m[(size_t)t], m[s.draw((uint64_t)t + 1)]);
    ts::Mat A(r, k);
    ts::Vec b(r), x(1);
    for (int t = 0; t < r; t++) { for (int j = 0; j < k; j++) A.Value(t, j) = m[(size_t)t][(size_t)j]; b[t] = m[(size_t)t][(size_t)k]; }
    bool allow = s.draw(4) != 0;
    ts::Config::Get().allowIndeterminateEquation = allow;
    c.describe([&](std::ostream &q) { q << "wide " << r << "x" << k << " " << str(A, b) << (allow ? " allowed" : ""); });
    c.key = str(A, b);
    c.nontrivial = true;
    c.label("very wide");
    ts::Mat A0 = A;
    ts::Vec b0 = b;
    std::string w;
    int got = outcome(A, b, x, w), exp = !consistent ? (int)ts::ErrorType::ERROR_SINGULAR_MATRIX : allow ? -1 : (int)ts::ErrorType::ERROR_INDETERMINATE_EQUATION;
    REQUIRE(got == exp, nameOf(exp), " expected, got ", nameOf(got));
    unchanged("A", A, A0);
    unchanged("b", b, b0);
    if (got == -1) satisfies(A, b, x);
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    if (s.draw(60) == 59) { veryWide(c); return; }
    if (s.draw(5) == 4) { reals(c); return; }
    int top = s.draw(6) == 5 ? 7 : 5;
    int r = (int)s.range(1, top), k = (int)s.range(1, top);
    switch (s.draw(4)) { case 0: k = r; break; case 1: if (k < r) std::swap(r, k); break; default: break; }
    int span = (int)s.pick({1, 2, 3, 1});
    if (r > 5 || k > 5) span = 1;
    // [A|b] by rows: base rows random, dependent rows combinations of earlier ones
    IM m((size_t)r, std::vector<I>((size_t)k + 1, 0));
    int depRows = s.draw(3) ? (int)s.range(0, r) : 0, zeroCols = s.draw(3) == 2 ? (int)s.range(0, k) : 0, sparse = (int)s.draw(3);
    for (int i = 0; i < r; i++) {
        if (i >= r - depRows && i > 0) {
            int t = (int)s.draw(3); // zero row, copy, combination
            if (t) {
                int p = (int)s.draw((uint64_t)i), q = (int)s.draw((uint64_t)i), f = (int)s.pick({1, -1, 2}), g = t == 2 ? (int)s.pick({1, -1}) : 0;
                if (p == q) g = 0;
                for (int j = 0; j <= k; j++) m[i][j] = f * m[p][j] + g * m[q][j];
            }
        } else
            for (int j = 0; j <= k; j++) { I v = s.range(-span, span); if (sparse == 2 && s.draw(2)) v = 0; m[i][j] = v; }
        if (i >= r - depRows && s.draw(6) == 5) m[i][k] += s.pick({1, -1}); // often inconsistent
    }
    for (int z = 0; z < zeroCols; z++) { // zero or repeated columns
        int j = (int)s.draw((uint64_t)k), p = (int)s.draw((uint64_t)k);
        bool zero = s.coin();
        for (int i = 0; i < r; i++) m[i][j] = zero ? 0 : m[i][p];
    }
    bool shuffle = s.coin();
    if (shuffle) {
        for (int i = r - 1; i > 0; i--) std::swap(m[i], m[s.draw((uint64_t)i + 1)]);
        for (int j = k - 1; j > 0; j--) { size_t o = s.draw((uint64_t)j + 1); for (int i = 0; i < r; i++) std::swap(m[i][j], m[i][o]); }
    }
    IM a = m;
    for (auto &q : a) q.pop_back();
    int ra = exact::bareiss(a), rab = exact::bareiss(m);
    double had = 1;
    for (auto &q : m) { double t = 0; for (auto v : q) t += (double)v * (double)v; had *= std::max(1.0, std::sqrt(t)); }
    if (had > 2e5) throw Discard{};
    ts::Mat A(r, k);
    ts::Vec b(r);
    bool scaled = s.coin();
    std::vector<double> cs((size_t)k, 1.0);
    if (scaled && s.coin()) for (auto &v : cs) v = s.pick({1.0, 0.5, 3.0, 10.0});
    double bs = s.pick({1.0, 1.0, 5.0, 0.3});
    for (int i = 0; i < r; i++) {
        double f = scaled ? s.pick({1.0, -1.0, 1.0 / 3, 0.1, 7.0, 50.0}) : 1;
        for (int j = 0; j < k; j++) A.Value(i, j) = (double)m[i][j] * f * cs[j];
        b[i] = (double)m[i][k] * f * bs;
    }
    double eps = s.draw(3) ? 1e-9 : s.pick({1e-8, 2e-9, 1e-10});
    bool allow = s.coin();
    ts::Config::Get().epsilon = eps;
    ts::Config::Get().allowIndeterminateEquation = allow;
    c.describe([&](std::ostream &q) { q << str(A, b) << " rank(A)=" << ra << " rank([A|b])=" << rab << " allowIndeterminateEquation=" << allow << " epsilon=" << eps; });
    c.key = str(A, b);
    c.nontrivial = r * k > 1;
    int exp = -1;
    if (r > k) exp = (int)ts::ErrorType::ERROR_OVER_DETERMINED_EQUATIONS;
    else if (ra < rab) exp = (int)ts::ErrorType::ERROR_SINGULAR_MATRIX;
    else if (r == k) exp = ra < k ? (int)ts::ErrorType::ERROR_INFINITY_SOLUTIONS : -1;
    else exp = allow ? -1 : (int)ts::ErrorType::ERROR_INDETERMINATE_EQUATION;
    ts::Mat A0 = A;
    ts::Vec b0 = b, x(1);
    std::string w;
    int got = outcome(A, b, x, w);
    c.label(std::string(r == k ? "square" : r > k ? "tall" : ra < r ? "wide rank-deficient" : "wide") + ": " + nameOf(exp));
    REQUIRE(got == exp, nameOf(exp), " expected for ", str(A, b), ", got ", nameOf(got), " (", w, ")");
    unchanged("A", A, A0);
    unchanged("b", b, b0);
    if (got == -1) satisfies(A, b, x);
    REQUIRE(ts::Config::Get().epsilon == eps && ts::Config::Get().allowIndeterminateEquation == allow, "the configuration changed");
}
