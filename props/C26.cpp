#include "bridge.h"
#include <cstring>
using namespace pbt;
using namespace bridge;
const char *const kPropertyId = "C26";
const char *const kRule =
    "a case is a point, a direction and a function R^n -> R^n (n 1..4, sometimes up to 16; affine, quadratic, trigonometric, steep, with or without its own Jacobian, constant, a stair, or hostile: NaN, infinite, "
    "random, throwing) given as callbacks that count and check their calls; every halved step is judged again here with the stated criterion. For the secant search affine "
    "scalar functions with a known zero, and hostile ones. Non-trivial: the step is not the first candidate.";
const Knobs kKnobs = {30, 25000, false, 2};

namespace {
typedef std::vector<double> V;
typedef std::vector<V> MM;
V toV(const ts::Vec &v) { V r; for (int i = 0; i < v.Rows(); i++) r.push_back(v[(size_t)i]); return r; }
ts::Vec fromV(const V &v) { return ts::Vec(std::valarray<double>(v.data(), v.size())); }
struct Fn { // f and df on plain vectors
    int n, kind;
    MM A;
    V b, q;
    uint64_t salt;
    double nudge = 0;
    V f(const V &x) const {
        V r((size_t)n);
        uint64_t h = salt;
        for (double v : x) { uint64_t u; memcpy(&u, &v, 8); h = mix(h ^ u); }
        for (int i = 0; i < n; i++) {
            double t = b[i];
            for (int j = 0; j < n; j++) t += A[i][j] * x[j];
            switch (kind) {
            case 1: t += q[i] * x[i] * x[i]; break;
            case 2: t = b[i] * std::sin(t); break;
            case 3: t = std::exp(std::min(t, 600.0)) - 1; break;
            case 4: t = std::sqrt(t); break;                // NaN on one side
            case 5: t = std::log(t); break;
            case 6: t = (double)(int64_t)(mix(h + (uint64_t)i) >> 40) / 1e4 - 800; break; // noise
            case 7: t = std::nan(""); break;
            case 8: t = t > 0 ? INFINITY : t; break;
            case 9: t = 3; break;                           // never improves (unless its derivative is given as zero)
            case 10: t = std::floor(4 * t + nudge * (1 + std::fabs(t))) / 4; break; // stairs
            default: break;
            }
            r[i] = t;
        }
        return r;
    }
    MM df(const V &x) const {
        MM m = A;
        for (int i = 0; i < n; i++) {
            double t = b[i];
            for (int j = 0; j < n; j++) t += A[i][j] * x[j];
            for (int j = 0; j < n; j++) switch (kind) {
            case 1: m[i][j] += i == j ? 2 * q[i] * x[i] : 0; break;
            case 2: m[i][j] *= b[i] * std::cos(t); break;
            case 3: m[i][j] *= std::exp(std::min(t, 600.0)); break;
            case 4: m[i][j] *= 0.5 / std::sqrt(t); break;
            case 5: m[i][j] /= t; break;
            case 7: m[i][j] = std::nan(""); break;
            case 9: if (salt & 1) m[i][j] = 0; break;
            case 10: m[i][j] = 0; break;
            default: break;
            }
        }
        return m;
    }
};
std::string show(const V &v) { std::string o = "("; for (double x : v) o += " " + model::fmt(x); return o + " )"; }
} // namespace

static void armijo(Case &c) {
    Src &s = c.s;
    int n = (int)s.range(1, s.draw(8) == 7 ? 16 : 4);
    Fn fn{n, (int)s.draw(11), MM((size_t)n, V((size_t)n)), V((size_t)n), V((size_t)n), s.draw(1000)};
    auto small = [&] { return s.draw(4) ? (double)s.range(-8, 8) / 4 : s.unit() * 6 - 3; };
    for (auto &r : fn.A) for (auto &v : r) v = small();
    for (auto &v : fn.b) v = small();
    for (auto &v : fn.q) v = small() * 3;
    V x((size_t)n), d((size_t)n);
    for (auto &v : x) v = small();
    double step = s.pick({1.0, 10.0, 0.1, 100.0, 1e6, 1e-3, 0.0});
    for (auto &v : d) v = small() * step;
    int towards = (int)s.draw(4);
    V fx = fn.f(x);
    MM J = fn.df(x);
    if (towards == 1) for (int i = 0; i < n; i++) { d[i] = 0; for (int j = 0; j < n; j++) d[i] -= J[j][i] * fx[j] * step; }      // steepest descent
    if (towards == 2 && n == 1 && J[0][0] != 0) d[0] = -fx[0] / J[0][0] * step;                                               // (over-long) Newton step
    if (towards == 3) for (int i = 0; i < n; i++) d[i] = -fx[i] * step;
    c.describe([&](std::ostream &o) { o << "Armijo n=" << n << " kind " << fn.kind << " x=" << show(x) << " d=" << show(d) << " f(x)=" << show(fx); });
    c.key = "A" + std::to_string(fn.kind) + show(x) + show(d) + show(fn.b) + show(fn.A[0]);
    long calls = 0, throwAt = s.draw(12) == 11 ? (long)s.range(1, 6) : 0;
    ts::Vec X = fromV(x), D = fromV(d);
    auto count = [&] { calls++; if (calls == throwAt) throw std::runtime_error("from the function"); REQUIRE(calls < 20000, "the search does not end: ", calls, " evaluations"); };
    double a;
    try {
        a = ts::Armijo(X, D, [&](ts::Vec v) { count(); REQUIRE(v.Rows() == n && v.Cols() == 1, "f called with ", v.Rows(), " values"); return fromV(fn.f(toV(v))); },
                       [&](ts::Vec v) { count(); MM m = fn.df(toV(v)); ts::Mat r(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.Value(i, j) = m[i][j]; return r; });
    } catch (const std::runtime_error &e) {
        REQUIRE(throwAt && std::string(e.what()) == "from the function", "unexpected exception: ", e.what());
        c.label("exception of the function");
        return;
    }
    V x1 = toV(X), d1 = toV(D);
    for (int i = 0; i < n; i++) REQUIRE((x1[i] == x[i] || x[i] != x[i]) && (d1[i] == d[i] || d[i] != d[i]), "x or d was modified");
    // judge every candidate
    double cand = 1;
    for (int k = 0; k < 1200; k++, cand /= 2) {
        V y((size_t)n);
        for (int i = 0; i < n; i++) y[i] = x[i] + cand * d[i];
        V fy = fn.f(y);
        long double l = 0, r = 0, mass = 0;
        bool same = true; // l and r are sums of the same numbers: equal, however they are rounded
        for (int i = 0; i < n; i++) {
            l += (long double)fy[i] * fy[i];
            long double t = fx[i], u = std::fabs(fx[i]);
            for (int j = 0; j < n; j++) { t += 0.4L * cand * J[j][i] * d[j]; u += 0.4L * cand * std::fabs((long double)J[j][i] * d[j]); same = same && J[j][i] * d[j] == 0; }
            same = same && fy[i] == fx[i] && std::fabs(fx[i]) < 1e100;
            r += t * t;
            mass += u * u;
        }
        // rounding: of the point (matters when f is steep), of the sums
        long double slack = 1e-9L * (l + mass) + 1e-300L;
        bool wild = !(l < 1e280L) || !(mass < 1e280L); // infinite, NaN or about to overflow
        bool clearlyHolds = !wild && (same || l < r - slack), clearlyFails = wild ? (std::isnan((double)l) || std::isnan((double)r)) : l > r + slack;
        if (fn.kind == 10) { // on the edge of a step the rounding of the point decides
            Fn up = fn, down = fn;
            up.nudge = 1e-11;
            down.nudge = -1e-11;
            if (up.f(y) != down.f(y)) clearlyHolds = clearlyFails = false;
        }
        if (cand == a) {
            REQUIRE(a == 0 || !clearlyFails, "the step ", a, " does not meet the criterion: ", (double)l, " > ", (double)r);
            c.nontrivial = k > 0;
            c.label(a == 0 ? "step 0" : k == 0 ? "full step" : k < 10 ? "a few halvings" : "many halvings");
            return;
        }
        if (fn.kind != 6 && fn.kind != 8) REQUIRE(!clearlyHolds, "the step ", cand, " already meets the criterion (", (double)l, " < ", (double)r, ") but ", a, " was returned");
    }
    failf("the step ", a, " is none of 1, 1/2, 1/4, ..., 0");
}

static void secant(Case &c) {
    Src &s = c.s;
    std::ostringstream sink;
    auto *old = std::cout.rdbuf(sink.rdbuf());
    struct Restore { std::streambuf *b; ~Restore() { std::cout.rdbuf(b); } } restore{old};
    long calls = 0;
    auto count = [&] { calls++; REQUIRE(calls < 5000, "the search does not end: ", calls, " evaluations"); };
    if (s.coin()) { // affine, increasing, negative at the start
        double x = s.unit() * 20 - 10, d = (s.coin() ? 1 : -1) * (s.draw(3) ? s.unit() * 3 + 0.05 : s.pick({1.0, 10.0, 0.01})), zero = s.draw(3) ? s.unit() * 10 + 0.01 : s.pick({1.0, 2.0, 0.5, 100.0, 1e-2, 700.0, 5e3, 1e5, 1e6});
        double slope = (s.unit() * 5 + 0.1) / d, root = x + zero * d; // f(v) = slope*(v - root)
        c.describe([&](std::ostream &o) { o << "FindAlpha x=" << x << " d=" << d << " slope=" << slope << " zero at the step " << zero; });
        c.key = "F" + model::fmt(x) + model::fmt(d) + model::fmt(zero);
        ts::Vec X{x}, D{d};
        double unc = s.pick({1e-5, 1e-3, 1e-6}), a;
        auto f = [&](ts::Vec v) { count(); return ts::Vec{slope * (v[0] - root)}; };
        if (unc == 1e-5 && s.coin()) a = ts::FindAlpha(X, D, f);
        else a = ts::FindAlpha(X, D, f, unc);
        REQUIRE(X[0] == x && D[0] == d, "x or d was modified");
        double tol = 1e-9 * (zero + (1 + std::fabs(x)) / std::fabs(d));
        REQUIRE(std::fabs(a - zero) <= std::max(tol, zero == 1 ? unc : 0), "the secant search gives ", a, " but the function vanishes at the step ", zero);
        c.nontrivial = zero != 1;
        c.label("secant affine");
        return;
    }
    int n = (int)s.range(1, 3);
    Fn fn{n, (int)s.draw(11), MM((size_t)n, V((size_t)n)), V((size_t)n), V((size_t)n), s.draw(1000)};
    auto small = [&] { return s.draw(4) ? (double)s.range(-8, 8) / 4 : s.unit() * 6 - 3; };
    for (auto &r : fn.A) for (auto &v : r) v = small();
    for (auto &v : fn.b) v = small();
    for (auto &v : fn.q) v = small() * 3;
    V x((size_t)n), d((size_t)n);
    for (auto &v : x) v = small();
    for (auto &v : d) v = small() * s.pick({1.0, 100.0, 1e-3});
    c.describe([&](std::ostream &o) { o << "FindAlpha n=" << n << " kind " << fn.kind << " x=" << show(x) << " d=" << show(d); });
    c.key = "H" + std::to_string(fn.kind) + show(x) + show(d) + show(fn.b) + show(fn.A[0]);
    ts::Vec X = fromV(x), D = fromV(d);
    ts::FindAlpha(X, D, [&](ts::Vec v) { count(); return fromV(fn.f(toV(v))); }, s.pick({1e-5, 1e-9, 0.0, 1e-2}));
    V x1 = toV(X), d1 = toV(D);
    for (int i = 0; i < n; i++) REQUIRE(x1[i] == x[i] && d1[i] == d[i], "x or d was modified");
    c.nontrivial = calls > 3;
    c.label(calls > 100 ? "secant to its limit" : "secant hostile");
}

void property(Case &c) {
    resetConfig();
    if (c.s.draw(3) == 2) secant(c);
    else armijo(c);
}
