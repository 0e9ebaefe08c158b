#include "solve.h"
using namespace solve;
using model::E;
using model::Op;
const char *const kPropertyId = "C21";
const char *const kRule =
    "a case is one of: a diagonally dominant affine system of 1..6 (sometimes up to 30) unknowns, permuted and written in random ways, from a start up to 100 away (sometimes 1e6), sometimes from all zeros or ones; a smooth system with a planted "
    "root and a start inside the Newton-Kantorovich ball around it; a system with several known simple roots, started near one of them; or the latter solved without a table from "
    "the configured initial value. The result must be the planted root. Non-trivial: the start is not already a root.";
const Knobs kKnobs = {60, 40000, false, 5};

namespace {
const Names kPool = {"x", "y", "z", "b", "a", "x1"};
E num(double v) { return model::num(v); }
// one affine equation sum a_j x_j = b, written in a random way
E affine(Src &s, const std::vector<double> &a, double b, const Names &names) {
    E e;
    std::vector<size_t> order(a.size());
    for (size_t i = 0; i < a.size(); i++) order[i] = i;
    for (size_t i = a.size() - 1; i > 0; i--) std::swap(order[i], order[s.draw(i + 1)]);
    auto put = [&](E t) {
        if (!e) e = t;
        else if (s.coin()) e = add(e, t);
        else e = add(t, e);
    };
    bool placed = false;
    for (size_t j : order) {
        if (a[j] == 0 && s.coin()) continue;
        E v = model::var(names[j]);
        switch (s.draw(5)) {
        case 0: put(mul(v, num(a[j]))); break;
        case 1: put(mul(num(a[j]), v)); break;
        case 2: put(model::un(Op::NEG, mul(num(-a[j]), v))); break;
        case 3: if (a[j] != 0) { put(model::bin(Op::DIV, v, num(1 / a[j]))); break; } put(mul(v, num(0))); break;
        default: put(sub(mul(num(a[j] + 1), v), v)); break;
        }
        if (!placed && s.draw(3) == 2) { put(num(-b)); placed = true; }
    }
    if (!e) e = num(0);
    if (!placed) e = s.coin() ? sub(e, num(b)) : add(e, num(-b));
    return e;
}
void shuffle(Src &s, std::vector<size_t> &p) {
    for (size_t i = 0; i < p.size(); i++) p[i] = i;
    for (size_t i = p.size() - 1; i > 0; i--) std::swap(p[i], p[s.draw(i + 1)]);
}
} // namespace

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    ts::Config &cfg = ts::Config::Get();
    Method m = (Method)s.draw(3);
    cfg.nonlinearMethod = s.coin() ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON;
    int kind = (int)s.draw(4);
    if (kind == 3) m = NO_TABLE;
    bool lm = m == LM || ((m == BY_CONFIG || m == NO_TABLE) && cfg.nonlinearMethod == ts::NonlinearMethod::LM);
    int n = (int)s.range(1, lm ? 3 : s.draw(3) ? 3 : 6);
    Names pool = kPool;
    if (kind == 0 && !lm && s.draw(24) == 23) {
        n = (int)s.range(7, 30);
        c.label("many unknowns");
        while ((int)pool.size() < n) pool.push_back("v" + std::to_string(pool.size()));
    }
    Names names(pool.begin(), pool.begin() + n);
    for (int i = n - 1; i > 0; i--) std::swap(names[i], names[s.draw((uint64_t)i + 1)]);
    // J0: rows dominated by the diagonal; for LM close to a multiple of a permutation (condition number below 2)
    double weight = lm ? 0.15 / n : 0.5 / n, scale = lm ? s.pick({1.0, -1.0, 2.0, 0.5}) : s.pick({1.0, -1.0, 2.0, 10.0, 0.25});
    std::vector<std::vector<double>> J((size_t)n, std::vector<double>((size_t)n));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J[i][j] = i == j ? scale * (lm ? 1 : 1 + (double)s.range(0, 4) / 4) : (s.draw(3) ? scale * weight * ((double)s.range(-8, 8) / 8) : 0);
    std::vector<size_t> perm((size_t)n);
    shuffle(s, perm);
    std::vector<double> root(n), start(n);
    std::vector<E> eq((size_t)n);
    double eps = s.pick({1e-9, 1e-9, 1e-6, 1e-11}), tol;
    cfg.epsilon = eps;
    cfg.throwOnInvalidValue = s.draw(4) != 0;
    // a start which is special as a whole (all zero, all one, ...): then the root is placed around it
    bool special = s.draw(3) == 2;
    double z = s.pick({0.0, 0.0, 1.0, -1.0, 2.0, 0.5});
    if (kind != 3) cfg.initialValue = s.pick({1.0, 0.0, -1.0, 7.5, 1e3, -2.5}); // must not matter when a table is given
    if (kind == 0) { // affine
        for (int i = 0; i < n; i++) { root[i] = s.draw(3) ? (double)s.range(-20, 20) / 2 : s.unit() * 20 - 10; start[i] = s.draw(6) ? s.unit() * 60 - 30 : (double)s.range(-100, 100); }
        if (special) for (auto &v : start) v = z;
        double far = s.draw(3) == 2 ? s.pick({10.0, 100.0, 1e4}) : 1; // an affine system takes one Newton step from anywhere
        bool starts = s.coin();
        for (int i = 0; i < n; i++) (starts ? start : root)[i] *= far;
        for (int i = 0; i < n; i++) {
            double b = 0;
            for (int j = 0; j < n; j++) b += J[i][j] * root[j];
            eq[perm[i]] = affine(s, J[i], b, names);
        }
        cfg.maxIterations = lm ? 100 : (int)s.range(3, 10);
        tol = eps * 8 * n / std::fabs(scale) + 1e-9 * far;
        if (far > 1) cfg.epsilon = std::max(cfg.epsilon, 1e-11 * far * 30 * std::fabs(scale) * n), tol += 8 * n * cfg.epsilon / std::fabs(scale);
        cfg.epsilon = std::max(cfg.epsilon, 1e-10);
        c.label(lm ? "affine LM" : "affine NR");
    } else if (kind == 1) { // smooth, planted root
        double bend = s.pick({0.05, 0.2, 0.5}) * std::fabs(scale);
        double margin = std::fabs(scale) * (lm ? 0.8 : 0.5), least = std::min(0.3, margin / (8 * 12 * bend)) / (lm ? 4 : 1); // no less than the radius below
        for (int i = 0; i < n; i++) root[i] = special ? z + least * (s.unit() * 2 - 1) : s.unit() * 4 - 2;
        model::Env env;
        for (int i = 0; i < n; i++) env[names[i]] = root[i];
        double K = 0; // bound of the second derivatives per row, near the root
        for (int i = 0; i < n; i++) {
            std::vector<double> lin = J[i];
            E g;
            int terms = (int)s.range(1, 3);
            double row = 0;
            for (int t = 0; t < terms; t++) {
                E x = model::var(names[s.draw((uint64_t)n)]), y = model::var(names[s.draw((uint64_t)n)]), q;
                double d2 = 2; // |second derivatives| summed, for |x| <= 3
                switch (s.draw(7)) {
                case 0: q = model::un(Op::SIN, x); break;
                case 1: q = model::un(Op::COS, model::bin(Op::ADD, x, y)); d2 = 4; break;
                case 2: q = mul(x, y); break;
                case 3: q = model::bin(Op::POW, x, num(2)); break;
                case 4: q = model::un(Op::EXP, model::bin(Op::DIV, x, num(4))); break;
                case 5: q = model::un(Op::ATAN, x); break;
                default: q = model::un(Op::LOG, model::bin(Op::ADD, num(4), mul(x, x))); break;
                }
                row += d2 * bend;
                q = mul(num(bend), q);
                g = g ? add(g, q) : q;
            }
            K = std::max(K, row);
            // remove the linear part of g at the root, so that the Jacobian there is J exactly (up to rounding)
            for (int j = 0; j < n; j++) {
                model::JetResult r = model::jets(g, env, {names[j]});
                if (!r.ok) throw Discard{};
                lin[j] -= (double)r.c[1];
            }
            double b = model::eval(g, env).v;
            for (int j = 0; j < n; j++) b += lin[j] * root[j];
            E l = affine(s, lin, b, names);
            eq[perm[i]] = s.coin() ? add(g, l) : add(l, g);
        }
        // ||J^-1|| <= 1/(margin), radius r with K r ||J^-1|| <= 1/8: Newton converges to this root from inside
        double radius = std::min(0.3, margin / (8 * K));
        if (lm) radius /= 4;
        for (int i = 0; i < n; i++) start[i] = special ? z : root[i] + radius * (s.unit() * 2 - 1);
        cfg.maxIterations = lm ? 100 : 12;
        if (cfg.epsilon < 1e-10) cfg.epsilon = 1e-10;
        tol = cfg.epsilon * 4 / margin + 1e-9;
        c.label(lm ? "smooth LM" : "smooth NR");
    } else { // several roots: prod (y_i - r_k), y = x or a unimodular mix
        std::vector<std::vector<double>> roots((size_t)n);
        std::vector<int> which((size_t)n);
        bool noTable = kind == 3;
        double delta = 0.04;
        double common = special ? z - delta * 0.75 : (double)s.range(-3, 3) + 0.5;
        bool mix = !lm && !noTable && n > 1 && s.coin();
        std::vector<std::vector<double>> R((size_t)n, std::vector<double>((size_t)n));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] = i == j ? 1 : mix && j < i ? (double)s.range(-1, 1) : 0;
        std::vector<double> first((size_t)n); // the start, in terms of y = R x
        for (int i = 0; i < n; i++) {
            int k = (int)s.range(2, 3);
            double at = (double)s.range(-4, 4), offset = delta * (s.unit() * 2 - 1);
            if (noTable) at = common, offset = delta * 0.75; // one root of each near the common start
            else if (special) {
                at = -offset;
                for (int j = 0; j < n; j++) at += R[i][j] * z;
            }
            first[i] = at + offset;
            int pos = (int)s.draw((uint64_t)k);
            for (int q = 0; q < k; q++) roots[i].push_back(at + (q - pos) * 1.5);
            which[i] = pos;
            root[i] = at;
        }
        std::vector<double> x(n), x0(n);
        for (int i = 0; i < n; i++) { // solve R x = y forwards
            double y = root[i], y0 = first[i];
            for (int j = 0; j < i; j++) { y -= R[i][j] * x[j]; y0 -= R[i][j] * x0[j]; }
            x[i] = y;
            x0[i] = y0;
            if (special && !noTable) x0[i] = z;
        }
        for (int i = 0; i < n; i++) {
            E y;
            for (int j = 0; j < n; j++) if (R[i][j] != 0) {
                E t = R[i][j] == 1 ? model::var(names[j]) : mul(num(R[i][j]), model::var(names[j]));
                y = y ? add(y, t) : t;
            }
            E p;
            double slope = 1;
            for (size_t q = 0; q < roots[i].size(); q++) {
                p = p ? mul(p, sub(y, num(roots[i][q]))) : sub(y, num(roots[i][q]));
                if ((int)q != which[i]) slope *= root[i] - roots[i][q];
            }
            if (lm) p = model::bin(Op::DIV, p, num(slope)); // Jacobian close to the identity
            eq[perm[i]] = p;
        }
        root = x;
        start = x0;
        if (noTable) { cfg.initialValue = special ? z : common + delta * 0.75; for (auto &v : start) v = cfg.initialValue; }
        cfg.maxIterations = lm ? 100 : 12;
        if (cfg.epsilon < 1e-10) cfg.epsilon = 1e-10;
        tol = cfg.epsilon * 20 + 1e-9;
        c.label(std::string(noTable ? "initial value " : "several roots ") + (lm ? "LM" : "NR"));
    }
    c.describe([&](std::ostream &q) { q << show(eq) << text(m) << " from " << show(names, start) << " to " << show(names, root) << " " << showConfig(); });
    c.key = show(eq) + text(m) + show(names, start);
    ts::SymVec sys = toSystem(eq, &s);
    ts::VarsTable t = toTable(s, names, start);
    std::map<std::string, double> got;
    try {
        ts::VarsTable r = run(m, sys, t);
        got = asMap(r);
        if (m != NO_TABLE) REQUIRE(r.Vars() == t.Vars(), "the result lists its names in another order than the given table");
        for (int i = 0; i < r.VarNums() && i < r.Values().Rows(); i++) REQUIRE(model::sameBits(r.Values()[(size_t)i], r[r.Vars()[(size_t)i]]), "value ", i, " of the result is not that of ", r.Vars()[(size_t)i]);
    } catch (const std::runtime_error &e) { failf("no solution was found: ", e.what()); }
    REQUIRE((int)got.size() == n, "the result has ", got.size(), " variables");
    bool moved = false;
    for (int i = 0; i < n; i++) {
        REQUIRE(std::fabs(got[names[i]] - root[i]) <= tol, names[i], " is ", got[names[i]], " but the root is at ", root[i]);
        moved = moved || std::fabs(start[i] - root[i]) > tol;
    }
    c.nontrivial = moved;
}
