#include "bridge.h"
#include "exact.h"
using namespace pbt;
using namespace bridge;
using exact::I;
using exact::IM;
const char *const kPropertyId = "C15";
const char *const kRule =
    "a case is a square matrix of size 1..6 (rarely 7): random, sparse, (block) triangular, diagonal, symmetric, Gram, permuted or rank-deficient small integers, or reals; "
    "determinants of every leading block, adjugate, minors, inverse (with the configured epsilon at, below or above |det|) and positive-definiteness are "
    "compared with exact integer elimination. Non-trivial: size at least 2 and not the zero matrix.";
const Knobs kKnobs = {30, 20000, false};

static ts::Mat toMat(const IM &m) {
    ts::Mat a((int)m.size(), (int)m[0].size());
    for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[0].size(); j++) a.Value((int)i, (int)j) = (double)m[i][j];
    return a;
}
static void same(const char *what, const ts::Mat &a, const IM &m, double tol = 0) {
    REQUIRE(a.Rows() == (int)m.size() && a.Cols() == (int)m[0].size(), what, " has the wrong shape");
    for (int i = 0; i < a.Rows(); i++) for (int j = 0; j < a.Cols(); j++)
        REQUIRE(std::fabs(a.Value(i, j) - (double)m[i][j]) <= tol, what, ": (", i, ", ", j, ") is ", a.Value(i, j), " instead of ", (double)m[i][j], " in ", exact::show(m));
}
// sum over permutations of |product|, an upper bound: product of row sums
static double bulk(const IM &m, int n) {
    double p = 1;
    for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) r += std::fabs((double)m[i][j]); p *= std::max(r, 1.0); }
    return p;
}

static void reals(Case &c) { // consistency relations on real matrices
    Src &s = c.s;
    int n = (int)s.range(1, 5);
    ts::Mat A(n, n), B(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { A.Value(i, j) = s.unit() * 4 - 2; B.Value(i, j) = s.unit() * 4 - 2; }
    c.describe([&](std::ostream &q) { q << "real matrix " << A.ToString(); });
    c.nontrivial = n > 1;
    double d = ts::Det(A, n), e = ts::Det(B, n);
    double big = std::pow(4.0 * n, n);
    REQUIRE(std::fabs(ts::Det(A.Transpose(), n) - d) <= 1e-12 * big, "the determinant of the transpose differs");
    REQUIRE(std::fabs(ts::Det(A * B, n) - d * e) <= 1e-11 * big * big, "det(AB) = ", ts::Det(A * B, n), " but det(A)det(B) = ", d * e);
    ts::Mat adj(n, n);
    ts::Adjoint(A, adj);
    ts::Mat P = A * adj;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
        REQUIRE(std::fabs(P.Value(i, j) - (i == j ? d : 0)) <= 1e-11 * big, "A*adj(A) at (", i, ", ", j, ") is ", P.Value(i, j), " with determinant ", d);
    if (std::fabs(d) > 1e-3) {
        ts::Mat Q = A * A.Inverse(), R = A.Inverse() * A;
        double tol = 1e-10 * big / std::fabs(d);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
            REQUIRE(std::fabs(Q.Value(i, j) - (i == j)) <= tol && std::fabs(R.Value(i, j) - (i == j)) <= tol, "A*inv(A) at (", i, ", ", j, ") is ", Q.Value(i, j));
    }
    c.label("reals");
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    if (s.draw(6) == 5) { reals(c); return; }
    int n = (int)s.range(1, s.draw(40) == 39 ? 7 : s.draw(4) ? 4 : 6);
    int span = (int)s.pick({1, 3, 5, 2, 9});
    IM m((size_t)n, std::vector<I>((size_t)n, 0));
    int shape = (int)s.draw(11);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        I v = s.range(-span, span);
        if (shape == 1 && s.draw(2)) v = 0;       // sparse
        if (shape == 2 && j < i) v = 0;           // triangular
        if (shape == 8 && j > i) v = 0;           // lower triangular
        if (shape == 9 && j != i) v = 0;          // diagonal
        if ((shape == 2 || shape == 8 || shape == 9) && i == j && v == 0 && s.draw(4)) v = 1;
        m[i][j] = v;
    }
    switch (shape) {
    case 9: // almost diagonal
        for (int t = (int)s.draw(3); t > 0; t--) m[s.draw((uint64_t)n)][s.draw((uint64_t)n)] = s.range(-span, span);
        break;
    case 10: { // block triangular
        int k = (int)s.range(1, n);
        bool low = s.coin(), both = s.draw(4) == 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
            if ((i < k) != (j < k) && (both || (i < k) == low)) m[i][j] = 0;
        break;
    }
    case 3: for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) m[i][j] = m[j][i]; break; // symmetric
    case 4: { // Gram, often positive definite
        IM g((size_t)n, std::vector<I>((size_t)n, 0));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) g[i][j] += m[k][i] * m[k][j];
        if (s.coin()) for (int i = 0; i < n; i++) g[i][i] += s.range(-1, 2);
        m = g;
        break;
    }
    case 5: if (n > 1) { // a dependent row
        int i = (int)s.draw((uint64_t)n), j = (int)s.draw((uint64_t)n), k = (int)s.draw((uint64_t)n);
        for (int t = 0; t < n; t++) m[i][t] = i == j ? 0 : (i == k ? 1 : m[k][t]) * (i == k ? m[j][t] : 1) + (i == k ? 0 : m[j][t]);
        break;
    }
    case 6: for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) m[i][j] = 0; m[i][i] = s.range(1, 4); } // permuted diagonal, some negative
        for (int i = n - 1; i > 0; i--) if (s.coin()) std::swap(m[i], m[s.draw((uint64_t)i + 1)]);
        break;
    case 7: for (int i = 0; i < n; i++) m[i][i] += 2 * span; break; // often positive definite
    default: break;
    }
    I d = exact::det(m);
    c.describe([&](std::ostream &q) { q << exact::show(m) << " det " << (double)d; });
    c.key = exact::show(m);
    bool zero = true;
    for (auto &r : m) for (auto v : r) zero = zero && v == 0;
    c.nontrivial = n >= 2 && !zero;
    ts::Mat A = toMat(m);
    bool pos = true;
    for (int k = 1; k <= n; k++) {
        I want = exact::det(exact::block(m, k));
        pos = pos && want > 0;
        double got = ts::Det(A, k);
        double tol = std::min(1e-9 * bulk(m, k), 1e-3);
        REQUIRE(std::fabs(got - (double)want) <= tol, "determinant of the leading ", k, "x", k, " block of ", exact::show(m), " is ", got, " instead of ", (double)want);
    }
    // the same matrix as the leading block of a larger one, which need not be square
    ts::Mat W(n + (int)s.draw(3), n + (int)s.draw(3));
    for (int i = 0; i < W.Rows(); i++) for (int j = 0; j < W.Cols(); j++) W.Value(i, j) = i < n && j < n ? (double)m[i][j] : (double)s.range(-span, span);
    {
        double got = ts::Det(W, n);
        REQUIRE(std::fabs(got - (double)d) <= std::min(1e-9 * bulk(m, n), 1e-3), "determinant of the leading ", n, "x", n, " block of a ", W.Rows(), "x", W.Cols(), " matrix is ", got, " instead of ", (double)d);
    }
    REQUIRE(A.PositiveDetermine() == pos, "PositiveDetermine is ", !pos, " for ", exact::show(m));
    { // scaled by a power of two, which changes no sign and rounds nothing, and under any epsilon
        int sh = (int)s.range(-40, 40);
        double f = std::ldexp(1.0, sh);
        ts::Mat S = A;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) S.Value(i, j) = A.Value(i, j) * f;
        ts::Config::Get().epsilon = s.pick({1e-9, 0.0, 1.0, 100.0, 1e-300});
        REQUIRE(S.PositiveDetermine() == pos && A.PositiveDetermine() == pos, "PositiveDetermine is ", !pos, " for 2^", sh, " times ", exact::show(m), " or that matrix, with epsilon ", ts::Config::Get().epsilon);
        double got = ts::Det(S, n);
        REQUIRE(std::fabs(std::ldexp(got, -sh * n) - (double)d) <= std::min(1e-9 * bulk(m, n), 1e-3), "determinant of 2^", sh, " times ", exact::show(m), " is ", got);
        // the inverse of the scaled matrix
        double mag = std::ldexp(std::fabs((double)d), sh * n);
        bool thrown = false;
        try {
            ts::Mat inv = S.Inverse();
            for (int i = 0; i < n && d != 0; i++) for (int j = 0; j < n; j++) {
                double w = n == 1 ? 1.0 / (double)d : (double)exact::det(exact::minorOf(m, j, i, n)) * ((i + j) % 2 ? -1 : 1) / (double)d;
                REQUIRE(std::fabs(inv.Value(i, j) * f - w) <= 1e-9 * (std::fabs(w) + bulk(m, n) * 1e-6 / std::fabs((double)d)), "inverse of 2^", sh, " times ", exact::show(m), " at (", i, ", ", j, ") is ", inv.Value(i, j));
            }
        } catch (const ts::MathError &e) {
            thrown = true;
            REQUIRE(e.GetErrorType() == ts::ErrorType::ERROR_SINGULAR_MATRIX, "Inverse threw another error: ", e.what());
        }
        double eps = ts::Config::Get().epsilon;
        if (d == 0 || std::fabs(mag - eps) > 1e-6 * mag)
            REQUIRE(thrown == (mag <= eps), "Inverse of 2^", sh, " times ", exact::show(m), thrown ? " threw" : " returned", " with |det| = ", mag, " and epsilon ", eps);
        ts::Config::Get().epsilon = 1e-9;
    }
    c.label(pos ? "positive definite" : d == 0 ? "singular" : "regular");
    // minors, also of leading blocks
    if (n >= 2) for (int t = 0; t < 3; t++) {
        int k = s.draw(3) ? n : (int)s.range(2, n), p = (int)s.draw((uint64_t)k), q = (int)s.draw((uint64_t)k);
        ts::Mat cof(k - 1, k - 1, 99);
        ts::GetCofactor(s.draw(3) ? A : W, cof, p, q, k);
        same("minor", cof, exact::minorOf(m, p, q, k));
    }
    IM adj((size_t)n, std::vector<I>((size_t)n, 1));
    double ab = 1;
    if (n > 1) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        adj[j][i] = exact::det(exact::minorOf(m, i, j, n)) * ((i + j) % 2 ? -1 : 1);
        ab = std::max(ab, std::fabs((double)adj[j][i]));
    }
    ts::Mat ad(n, n, s.coin() ? 0 : 55);
    ts::Adjoint(A, ad);
    same("adjugate", ad, adj, std::min(1e-9 * bulk(m, n), 1e-3));
    // inverse and the singularity threshold
    double ad_ = std::fabs((double)d);
    double eps = 1e-9;
    switch (s.draw(6)) {
    case 0: eps = ad_; break; // exactly at the determinant
    case 1: eps = ad_ + 0.5; break;
    case 2: eps = std::max(0.0, ad_ - 0.5); break;
    case 3: eps = (double)s.range(0, 6); break;
    default: break;
    }
    ts::Config::Get().epsilon = eps;
    bool threw = false;
    try {
        ts::Mat inv = A.Inverse();
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            double w = (double)adj[i][j] / (double)d;
            REQUIRE(ad_ > 0 && std::fabs(inv.Value(i, j) - w) <= 1e-9 * (std::fabs(w) + bulk(m, n) * 1e-6 / ad_), "inverse of ", exact::show(m), " at (", i, ", ", j, ") is ", inv.Value(i, j), " instead of ", w);
        }
    } catch (const ts::MathError &e) {
        threw = true;
        REQUIRE(e.GetErrorType() == ts::ErrorType::ERROR_SINGULAR_MATRIX, "Inverse threw another error: ", e.what());
    }
    bool wantThrow = ad_ <= eps;
    REQUIRE(threw == wantThrow, "Inverse of ", exact::show(m), threw ? " threw" : " returned", " with |det| = ", ad_, " and epsilon ", eps);
    same("the matrix afterwards", A, m);
}
