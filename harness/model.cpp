#include "model.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace model {
using pbt::Src;
typedef long double ld;

E num(double v) { auto e = std::make_shared<Expr>(); e->op = Op::NUM; e->v = v; return e; }
E var(const std::string &n) { auto e = std::make_shared<Expr>(); e->op = Op::VAR; e->name = n; return e; }
E un(Op o, E a) { auto e = std::make_shared<Expr>(); e->op = o; e->l = std::move(a); return e; }
E bin(Op o, E a, E b) { auto e = std::make_shared<Expr>(); e->op = o; e->l = std::move(a); e->r = std::move(b); return e; }

int size(const E &e) { return e ? 1 + size(e->l) + size(e->r) : 0; }
int depth(const E &e) { return e ? 1 + std::max(depth(e->l), depth(e->r)) : 0; }
void vars(const E &e, std::set<std::string> &out) {
    if (!e) return;
    if (e->op == Op::VAR) out.insert(e->name);
    vars(e->l, out);
    vars(e->r, out);
}
std::set<std::string> vars(const E &e) { std::set<std::string> s; vars(e, s); return s; }
bool contains(const E &e, const std::string &v) {
    return e && ((e->op == Op::VAR && e->name == v) || contains(e->l, v) || contains(e->r, v));
}
bool containsOp(const E &e, Op o) { return e && (e->op == o || containsOp(e->l, o) || containsOp(e->r, o)); }
bool containsBitOp(const E &e) { return e && (isBitOp(e->op) || containsBitOp(e->l) || containsBitOp(e->r)); }
bool same(const E &a, const E &b) {
    if (!a || !b) return !a && !b;
    return a->op == b->op && a->v == b->v && a->name == b->name && same(a->l, b->l) && same(a->r, b->r);
}
std::string fmt(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static const char *opName(Op o) {
    static const char *n[] = {"num", "var", "+", "-", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp",
                              "+", "-", "*", "/", "^", "&", "|", "%"};
    return n[(int)o];
}
std::string show(const E &e) {
    if (!e) return "<null>";
    switch (e->op) {
    case Op::NUM: return fmt(e->v);
    case Op::VAR: return e->name;
    default: break;
    }
    if (e->r) return "(" + show(e->l) + " " + opName(e->op) + " " + show(e->r) + ")";
    if (e->op == Op::POS || e->op == Op::NEG) return std::string("(") + opName(e->op) + " " + show(e->l) + ")";
    return std::string(opName(e->op)) + "(" + show(e->l) + ")";
}
E subst(const E &e, const std::map<std::string, E> &m) {
    if (!e) return e;
    if (e->op == Op::VAR) { auto i = m.find(e->name); return i == m.end() ? e : i->second; }
    if (e->op == Op::NUM) return e;
    auto n = std::make_shared<Expr>(*e);
    n->l = subst(e->l, m);
    n->r = subst(e->r, m);
    return n;
}

bool sameBits(double a, double b) { return (a != a && b != b) || memcmp(&a, &b, sizeof a) == 0; }
bool sameValue(double a, double b) { return (a != a && b != b) || a == b; }

static bool toInt(double v, int &o) {
    if (!(v > (double)INT_MIN - 1 && v < (double)INT_MAX + 1)) return false;
    o = (int)v;
    return true;
}
double apply(Op o, double a, double b) {
    int x, y;
    switch (o) {
    case Op::POS: return a;
    case Op::NEG: return -a;
    case Op::SIN: return ::sin(a);
    case Op::COS: return ::cos(a);
    case Op::TAN: return ::tan(a);
    case Op::ASIN: return ::asin(a);
    case Op::ACOS: return ::acos(a);
    case Op::ATAN: return ::atan(a);
    case Op::SQRT: return ::sqrt(a);
    case Op::LOG: return ::log(a);
    case Op::LOG2: return ::log2(a);
    case Op::LOG10: return ::log10(a);
    case Op::EXP: return ::exp(a);
    case Op::ADD: return a + b;
    case Op::SUB: return a - b;
    case Op::MUL: return a * b;
    case Op::DIV: return a / b;
    case Op::POW: return ::pow(a, b);
    case Op::AND: return toInt(a, x) && toInt(b, y) ? (double)(x & y) : NAN;
    case Op::OR: return toInt(a, x) && toInt(b, y) ? (double)(x | y) : NAN;
    case Op::MOD: return toInt(a, x) && toInt(b, y) && y != 0 ? (double)((long long)x % (long long)y) : NAN;
    default: return NAN;
    }
}

static double evalRec(const E &e, const Env &env, Eval &r) {
    double v;
    if (e->op == Op::NUM) v = e->v;
    else if (e->op == Op::VAR) {
        auto i = env.find(e->name);
        if (i == env.end()) { r.unbound = true; return NAN; }
        v = i->second;
    } else {
        double a = evalRec(e->l, env, r), b = e->r ? evalRec(e->r, env, r) : NAN;
        v = apply(e->op, a, b);
        if (!std::isfinite(v)) r.invalid = true;
        if (e->op == Op::POW && a == 0 && b == 0) r.zeroPowZero = true;
    }
    if (v == 0 && std::signbit(v)) r.negZero = true;
    if (std::isfinite(v) && v != 0) { r.maxAbs = std::max(r.maxAbs, std::fabs(v)); r.minAbs = std::min(r.minAbs, std::fabs(v)); }
    return v;
}
Eval eval(const E &e, const Env &env) {
    Eval r;
    r.v = evalRec(e, env, r);
    return r;
}

static const ld U = 1.2e-16L;

Bounded evalBounded(const E &e, const Env &env, ld lit) {
    Bounded r;
    auto bad = [&] { r.ok = false; return r; };
    if (e->op == Op::NUM || e->op == Op::VAR) {
        if (e->op == Op::NUM) {
            r.v = e->v;
            if (std::fabs(e->v) < 1 && std::fabs(e->v) > 1e-16) {
                // multiples of 2^-16 print exactly in 16 decimals
                ld t = (ld)e->v * 65536;
                if (t != truncl(t)) r.err = lit;
            }
        } else {
            auto i = env.find(e->name);
            if (i == env.end()) return bad();
            r.v = i->second;
        }
        r.mass = fabsl(r.v);
        if (r.v != 0 && (r.mass > 1e12L || r.mass < 1e-12L)) return bad();
        return r;
    }
    Bounded a = evalBounded(e->l, env, lit), b;
    if (!a.ok) return bad();
    if (e->r) { b = evalBounded(e->r, env, lit); if (!b.ok) return bad(); }
    ld x = a.v, y = b.v, ea = a.err, eb = b.err, d = 0;
    bool exact = ea == 0 && eb == 0;
    auto isInt = [](ld t) { return t == truncl(t) && fabsl(t) < 1e15L; };
    switch (e->op) {
    case Op::POS: case Op::NEG:
        r.v = e->op == Op::NEG ? -x : x; r.err = ea; break;
    case Op::ADD: case Op::SUB:
        r.v = e->op == Op::ADD ? x + y : x - y;
        r.mass = a.mass + b.mass; r.terms = a.terms + b.terms;
        r.err = exact && isInt(x) && isInt(y) && r.mass < 1e15L ? 0 : ea + eb + U * r.terms * r.mass;
        break;
    case Op::MUL:
        r.v = x * y; r.factors = a.factors + b.factors;
        r.err = exact && isInt(x) && isInt(y) && fabsl(r.v) < 1e15L ? 0 : fabsl(y) * ea + fabsl(x) * eb + ea * eb + U * r.factors * fabsl(r.v);
        break;
    case Op::DIV:
        if (fabsl(y) < 1e-9L || eb > 1e-6L * fabsl(y)) return bad();
        r.v = x / y; r.factors = a.factors + b.factors;
        r.err = 1.01L * (ea + fabsl(r.v) * eb) / fabsl(y) + U * r.factors * fabsl(r.v);
        break;
    case Op::POW:
        if (x == 0) {
            if (!exact) return bad();
            r.v = y > 0 ? 0 : 1;
            if (y < 0) return bad();
            r.err = 0;
            break;
        }
        if (ea > 1e-6L * fabsl(x)) return bad();
        if (x < 0 && (eb != 0 || y != truncl(y))) return bad();
        if (fabsl(y) > 1e4L) return bad();
        r.v = powl(x, y);
        d = (fabsl(y) + 1) * ea / fabsl(x) + fabsl(logl(fabsl(x))) * eb;
        if (d > 1e-3L) return bad();
        r.err = fabsl(r.v) * (2 * d + 4 * U);
        if (exact && isInt(x) && isInt(y) && isInt(r.v)) r.err = 0;
        break;
    case Op::SIN: r.v = sinl(x); r.err = ea + 4 * U; break;
    case Op::COS: r.v = cosl(x); r.err = ea + 4 * U; break;
    case Op::TAN:
        r.v = tanl(x); d = 1 + r.v * r.v;
        if (fabsl(r.v) > 1e4L || ea * d > 1e-3L) return bad();
        r.err = 2 * d * ea + 4 * U * fabsl(r.v); break;
    case Op::ASIN: case Op::ACOS:
        if (fabsl(x) > 1 - 1e-6L || ea > 1e-9L) { if (!(ea == 0 && fabsl(x) <= 1)) return bad(); }
        r.v = e->op == Op::ASIN ? asinl(x) : acosl(x);
        r.err = (ea == 0 ? 0 : 2 * ea / sqrtl(1 - x * x)) + 4 * U * (fabsl(r.v) + 1); break;
    case Op::ATAN: r.v = atanl(x); r.err = ea + 4 * U * fabsl(r.v); break;
    case Op::SQRT:
        if (x == 0 && ea == 0) { r.v = 0; break; }
        if (x < 0 || ea > 1e-6L * x) return bad();
        r.v = sqrtl(x); r.err = ea / r.v + 2 * U * r.v; break;
    case Op::LOG: case Op::LOG2: case Op::LOG10:
        if (x <= 0 || ea > 1e-6L * x) return bad();
        r.v = e->op == Op::LOG ? logl(x) : e->op == Op::LOG2 ? log2l(x) : log10l(x);
        r.err = 3 * ea / x + 4 * U * fabsl(r.v); break;
    case Op::EXP:
        if (fabsl(x) > 25 || ea > 1e-3L) return bad();
        r.v = expl(x); r.err = fabsl(r.v) * (2 * ea + 4 * U); break;
    case Op::AND: case Op::OR: case Op::MOD: {
        if (truncl(x - ea) != truncl(x + ea) || truncl(y - eb) != truncl(y + eb)) return bad();
        double t = apply(e->op, (double)truncl(x), (double)truncl(y));
        if (t != t) return bad();
        r.v = t; r.err = 0; break;
    }
    default: return bad();
    }
    if (e->op != Op::ADD && e->op != Op::SUB) r.mass = fabsl(r.v);
    if (r.factors > 18 || r.terms > 2000) return bad();
    if (!(r.mass <= 1e12L) || (r.v != 0 && fabsl(r.v) < 1e-12L && r.err > 0)) return bad();
    if (!(fabsl(r.v) <= 1e12L)) return bad();
    return r;
}

// ---- jets ----
typedef std::vector<ld> V;
static V jmul(const V &a, const V &b) {
    size_t n = a.size();
    V r(n, 0);
    for (size_t m = 0; m < n; m++)
        for (size_t s = m;; s = (s - 1) & m) {
            r[m] += a[s] * b[m ^ s];
            if (s == 0) break;
        }
    return r;
}
// sum_k t[k] n^k with n = a minus its constant part
static V jcompose(const V &t, const V &a) {
    V n(a), r(a.size(), 0), p(a.size(), 0);
    n[0] = 0;
    p[0] = 1;
    for (size_t k = 0; k < t.size(); k++) {
        for (size_t i = 0; i < r.size(); i++) r[i] += t[k] * p[i];
        p = jmul(p, n);
    }
    return r;
}
struct J { V c, m; bool dep = false; };

// Taylor coefficients t[0..K] of the function at a; false outside the trusted domain
static bool taylor(Op o, ld a, int K, V &t, ld &margin) {
    t.assign(K + 1, 0);
    margin = 1e6L;
    auto powSeries = [&](V p, ld al, V &r) { // p(h)^al
        r.assign(K + 1, 0);
        p.resize(K + 1, 0);
        r[0] = powl(p[0], al);
        for (int k = 1; k <= K; k++) {
            ld s = 0;
            for (int j = 1; j <= k; j++) s += ((al + 1) * j - k) * p[j] * r[k - j];
            r[k] = s / (k * p[0]);
        }
    };
    ld f = 1;
    switch (o) {
    case Op::SIN: case Op::COS:
        for (int k = 0; k <= K; k++) {
            if (k) f *= k;
            ld d = o == Op::SIN ? (k % 4 == 0 ? sinl(a) : k % 4 == 1 ? cosl(a) : k % 4 == 2 ? -sinl(a) : -cosl(a))
                                : (k % 4 == 0 ? cosl(a) : k % 4 == 1 ? -sinl(a) : k % 4 == 2 ? -cosl(a) : sinl(a));
            t[k] = d / f;
        }
        return true;
    case Op::EXP:
        if (a > 12 || a < -12) return false;
        for (int k = 0; k <= K; k++) { if (k) f *= k; t[k] = expl(a) / f; }
        return true;
    case Op::TAN:
        margin = fabsl(cosl(a));
        if (margin < 0.05L) return false;
        t[0] = tanl(a);
        for (int k = 0; k < K; k++) {
            ld s = k == 0 ? 1 : 0;
            for (int i = 0; i <= k; i++) s += t[i] * t[k - i];
            t[k + 1] = s / (k + 1);
        }
        return true;
    case Op::ASIN: case Op::ACOS: {
        margin = 1 - fabsl(a);
        if (margin < 0.02L) return false;
        V r;
        powSeries({1 - a * a, -2 * a, -1}, -0.5L, r);
        ld sg = o == Op::ASIN ? 1 : -1;
        t[0] = o == Op::ASIN ? asinl(a) : acosl(a);
        for (int k = 1; k <= K; k++) t[k] = sg * r[k - 1] / k;
        return true;
    }
    case Op::ATAN: {
        V r;
        powSeries({1 + a * a, 2 * a, 1}, -1, r);
        t[0] = atanl(a);
        for (int k = 1; k <= K; k++) t[k] = r[k - 1] / k;
        return true;
    }
    case Op::SQRT:
        margin = a;
        if (a < 1e-2L) return false;
        powSeries({a, 1}, 0.5L, t);
        return true;
    case Op::LOG: case Op::LOG2: case Op::LOG10: {
        margin = a;
        if (a < 1e-2L) return false;
        ld k0 = o == Op::LOG ? 1 : o == Op::LOG2 ? logl(2) : logl(10);
        t[0] = logl(a) / k0;
        for (int k = 1; k <= K; k++) t[k] = (k % 2 ? 1 : -1) / (k * powl(a, k)) / k0;
        return true;
    }
    default: return false;
    }
}
static V absV(const V &v) { V r(v); for (auto &x : r) x = fabsl(x); return r; }

static bool jet(const E &e, const Env &env, const std::vector<std::string> &dirs, J &r) {
    size_t n = 1u << dirs.size();
    int K = (int)dirs.size();
    if (e->op == Op::NUM || e->op == Op::VAR) {
        r.c.assign(n, 0);
        if (e->op == Op::NUM) r.c[0] = e->v;
        else {
            auto i = env.find(e->name);
            if (i == env.end()) return false;
            r.c[0] = i->second;
            for (size_t k = 0; k < dirs.size(); k++)
                if (dirs[k] == e->name) { r.c[1u << k] = 1; r.dep = true; }
        }
        r.m = absV(r.c);
        return r.m[0] <= 1e4L;
    }
    J a, b;
    if (!jet(e->l, env, dirs, a)) return false;
    if (e->r && !jet(e->r, env, dirs, b)) return false;
    r.dep = a.dep || b.dep;
    auto compose = [&](const V &t, const V &tm, const J &x, J &out) {
        out.c = jcompose(t, x.c);
        // mass: sensitivity of each coefficient to the error of the argument included
        V s(K + 1);
        for (int k = 0; k <= K; k++) s[k] = fabsl(tm[k]) + (k + 1) * fabsl(tm[k + 1]) * x.m[0];
        out.m = jcompose(s, x.m);
    };
    switch (e->op) {
    case Op::POS: r = a; break;
    case Op::NEG: r = a; for (auto &x : r.c) x = -x; break;
    case Op::ADD: case Op::SUB:
        r.c = a.c; r.m = a.m;
        for (size_t i = 0; i < n; i++) { r.c[i] += e->op == Op::ADD ? b.c[i] : -b.c[i]; r.m[i] += b.m[i]; }
        break;
    case Op::MUL: r.c = jmul(a.c, b.c); r.m = jmul(a.m, b.m); break;
    case Op::DIV: {
        ld d = b.c[0];
        if (fabsl(d) < 1e-2L || b.m[0] > 1e4L * fabsl(d)) return false;
        V t(K + 2);
        for (int k = 0; k <= K + 1; k++) t[k] = (k % 2 ? -1 : 1) / powl(d, k + 1);
        J inv;
        compose(t, t, b, inv);
        // the quotient rule works over the common denominator: extra mass factor
        ld f = b.m[0] / fabsl(d);
        for (auto &x : inv.m) x *= (1 + f) * (1 + f);
        r.c = jmul(a.c, inv.c); r.m = jmul(a.m, inv.m);
        break;
    }
    case Op::POW: {
        ld u = a.c[0];
        if (fabsl(u) < 1e-2L || a.m[0] > 1e4L * fabsl(u)) return false;
        if (!b.dep) {
            ld c = b.c[0];
            if (fabsl(c) > 12) return false;
            if (u < 0 && c != truncl(c)) return false;
            if (u < 0 && b.m[0] != fabsl(c)) { /* computed exponent: must be exactly an integer in double */
                Eval ev = eval(e->r, env);
                if (ev.v != std::trunc(ev.v)) return false;
            }
            V t(K + 2), tm(K + 2);
            t[0] = powl(u, c);
            tm[0] = fabsl(t[0]) * (1 + b.m[0] * fabsl(logl(fabsl(u))) + b.m[0]);
            for (int k = 1; k <= K + 1; k++) {
                t[k] = t[k - 1] * (c - k + 1) / (k * u);
                tm[k] = tm[k - 1] * (b.m[0] + k) / (k * fabsl(u));
            }
            compose(t, tm, a, r);
        } else {
            if (u <= 0) return false;
            V t, te;
            ld mg;
            if (!taylor(Op::LOG, u, K + 1, t, mg)) return false;
            J lg, ex;
            compose(t, t, a, lg);
            ex.c = jmul(lg.c, b.c);
            ex.m = jmul(lg.m, b.m);
            if (!taylor(Op::EXP, ex.c[0], K + 1, te, mg)) return false;
            compose(te, te, ex, r);
        }
        break;
    }
    default: {
        if (!isFunc(e->op)) return false;
        V t;
        ld mg;
        if (!taylor(e->op, a.c[0], K + 1, t, mg)) return false;
        if (a.m[0] > 1e4L * mg) return false;
        if ((e->op == Op::SIN || e->op == Op::COS || e->op == Op::TAN) && a.m[0] > 1e4L) return false;
        V tm(t);
        if (e->op == Op::TAN) // written as 1/cos^2: all terms non-negative in |tan|
            { ld tt = 1 / (mg * mg); tm[0] = fabsl(t[0]); for (size_t k = 1; k < tm.size(); k++) tm[k] = std::max(fabsl(t[k]), tt * powl(2 / mg, (ld)k - 1)); }
        if (e->op == Op::ASIN || e->op == Op::ACOS || e->op == Op::SQRT || e->op == Op::ATAN)
            for (size_t k = 1; k < tm.size(); k++) {
                ld q = e->op == Op::SQRT ? a.c[0] : e->op == Op::ATAN ? 1 : 1 - a.c[0] * a.c[0];
                tm[k] = std::max(fabsl(t[k]), powl(2 * (1 + fabsl(a.c[0])) / sqrtl(q), 2 * (ld)k - 1));
            }
        compose(t, tm, a, r);
        break;
    }
    }
    if (!(fabsl(r.c[0]) <= 1e4L) || !(r.m[0] <= 1e9L)) return false;
    for (auto x : r.m) if (!(x < 1e30L)) return false;
    return true;
}
JetResult jets(const E &e, const Env &env, const std::vector<std::string> &dirs) {
    JetResult r;
    J j;
    r.ok = jet(e, env, dirs, j);
    r.c = j.c;
    r.mass = j.m;
    return r;
}

// ---- generation ----
double genNumber(Src &s, int style) {
    if (style == 2) {
        switch (s.draw(10)) {
        case 0: return 0;
        case 1: return (double)s.range(0, 20);
        case 2: { // near powers of ten
            double v = std::pow(10.0, (double)s.range(-20, 20));
            int k = (int)s.range(0, 3);
            while (k--) v = std::nextafter(v, s.coin() ? INFINITY : 0.0);
            return v;
        }
        case 3: return std::pow(2.0, (double)s.range(-60, 60));
        case 4: return s.unit();
        case 5: return s.unit() * std::pow(10.0, (double)s.range(-18, 18));
        case 6: return (double)s.draw(1ull << 60);
        case 7: return s.pick({1e16, 1e-16, 1e15, 9999999999999998.0, 0.1, 1.0 / 3, 2147483647.0, 2147483648.0, 4294967296.0, 1e300, 1e-300, 1.7976931348623157e308});
        default: {
            uint64_t b = s.draw(0) & 0x7fffffffffffffffull;
            double v;
            memcpy(&v, &b, 8);
            if (!std::isfinite(v) || v < 2.3e-308) return (double)(b % 1000);
            return v;
        }
        }
    }
    if (style == 1) {
        switch (s.draw(7)) {
        case 0: return (double)s.range(0, 12);
        case 6: { // almost, but not quite, a special value
            double d = s.pick({1e-7, 1e-8, 1e-10, 1e-12, 1e-15});
            return std::fabs(s.pick({1.0, 0.0, 2.0, 3.0, 0.5, 10.0}) + (s.coin() ? d : -d));
        }
        case 1: return (double)s.range(0, 400) / 4;
        case 2: return (double)s.range(1, 999) / 1000;
        case 3: return s.unit() * 10;
        case 4: return s.unit();
        default: return (double)s.range(0, 3);
        }
    }
    switch (s.draw(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 3: return 3;
    case 4: return 0.5;
    case 5: return (double)s.range(0, 10);
    case 6: return (double)s.range(0, 40) / 8;
    default: return (double)s.range(1, 99) / 10;
    }
}

static E genLeaf(Src &s, const GenOpts &o) {
    if (!o.vars.empty() && s.draw(5) < 3) return var(s.pick(o.vars));
    double v = genNumber(s, o.numStyle);
    if (o.negativeNumbers && v != 0 && s.chance(1, 5)) v = -v;
    return num(v);
}

E genExpr(Src &s, const GenOpts &o, int ops) {
    if (ops <= 0) return genLeaf(s, o);
    uint64_t k = s.draw(20);
    if (o.functions && k >= 14 && k < 18) {
        Op f = (Op)((int)Op::SIN + (int)s.draw(11));
        E a = genExpr(s, o, ops - 1);
        if (o.tame && s.draw(4) != 0) {
            if (f == Op::SQRT || f == Op::LOG || f == Op::LOG2 || f == Op::LOG10)
                a = s.coin() ? bin(Op::ADD, bin(Op::POW, a, num(2)), num(1)) : bin(Op::ADD, num(3), un(Op::SIN, a));
            else if (f == Op::ASIN || f == Op::ACOS)
                a = s.coin() ? bin(Op::DIV, a, num(20)) : bin(Op::MUL, num(0.75), un(Op::SIN, a));
            else if (f == Op::EXP)
                a = s.coin() ? un(Op::COS, a) : bin(Op::DIV, a, num(4));
        }
        return un(f, a);
    }
    if (o.unarySigns && k >= 18) return un(k == 18 ? Op::NEG : s.draw(3) ? Op::NEG : Op::POS, genExpr(s, o, ops - 1));
    Op b = (Op)((int)Op::ADD + (int)s.draw(4));
    if (o.power && s.chance(1, 6)) b = Op::POW;
    if (o.bitOps && s.chance(1, 5)) b = (Op)((int)Op::AND + (int)s.draw(3));
    int rest = ops - 1, nl;
    switch (s.draw(4)) {
    default: nl = (int)s.range(0, rest); break;
    case 2: nl = rest; break;
    case 3: nl = 0; break;
    }
    E l = genExpr(s, o, nl);
    if (b == Op::POW && o.tame && s.draw(4) != 0) {
        if (s.coin()) {
            double c = s.pick({2.0, 3.0, 2.0, 1.0, 0.0, 0.5, -1.0, -2.0, 1.5, 4.0, 5.0});
            E ex = c < 0 && (!o.negativeNumbers || s.coin()) ? un(Op::NEG, num(-c)) : num(c);
            return bin(b, l, ex);
        }
        E base = bin(Op::ADD, bin(Op::POW, l, num(2)), num(0.5));
        return bin(b, base, bin(Op::DIV, genExpr(s, o, rest - nl), num(8)));
    }
    E r = genExpr(s, o, rest - nl);
    if (b == Op::DIV && o.tame && s.draw(4) != 0) r = s.coin() ? bin(Op::ADD, num(2), un(Op::COS, r)) : bin(Op::ADD, bin(Op::POW, r, num(2)), num(1));
    return bin(b, l, r);
}
E genExpr(Src &s, const GenOpts &o) { return genExpr(s, o, s.size(std::max(1, o.maxSize / 4), o.maxSize)); }

bool reservedName(const std::string &n) {
    static const std::set<std::string> f = {"sin", "cos", "tan", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "sqrt", "log", "log2", "log10", "exp"};
    if (f.count(n)) return true;
    if (n.empty()) return true;
    char *end;
    strtod(n.c_str(), &end);
    return end == n.c_str() + n.size();
}
static const std::vector<std::string> &reservedWords() {
    static const std::vector<std::string> w = {"sin", "cos", "tan", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "sqrt", "log", "log2", "log10", "exp", "inf", "infinity", "nan"};
    return w;
}
// a legal name that differs little from w
std::string genNameLike(Src &s, const std::string &w) {
    static const std::string first = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", rest = first + "0123456789";
    std::string r = w;
    for (int k = (int)s.range(1, 4) > 3 ? 2 : 1; k > 0; k--) {
        size_t p = s.draw(r.size() + 1);
        switch (s.draw(9)) {
        case 0: r.insert(p, "_"); break;
        case 1: r += s.pick({"_", "1", "0", "2", "x", "_1", "__", "e5"}); break;
        case 2: r.insert(p, 1, rest[s.draw(rest.size())]); break;
        case 3: if (p < r.size()) r.erase(p, 1); break;
        case 4: if (p < r.size()) r[p] = rest[s.draw(rest.size())]; break;
        case 5: if (p < r.size() && isalpha((unsigned char)r[p])) r[p] ^= 32; else r.insert(p, "_"); break;
        case 6: if (p < r.size()) r.insert(p, 1, r[p]); break;
        case 7: if (p + 1 < r.size()) std::swap(r[p], r[p + 1]); break;
        default: r += s.coin() ? s.pick(reservedWords()) : r; break;
        }
    }
    if (r.empty() || (r[0] >= '0' && r[0] <= '9')) r = "_" + r;
    while (r == w || reservedName(r)) r += "_";
    return r;
}
E nearMiss(Src &s, const E &e) {
    auto regroup = [&](const E &x, E &out) { // a op (b op c) <-> (a op b) op c, x <-> +x, NEG number <-> negative number
        if (x->op == Op::NUM && x->v != 0 && s.coin()) { out = un(Op::NEG, num(-x->v)); return true; }
        if (x->op == Op::NEG && x->l->op == Op::NUM && x->l->v != 0) { out = num(-x->l->v); return true; }
        if (isBinary(x->op) && x->r->op == x->op) { out = bin(x->op, bin(x->op, x->l, x->r->l), x->r->r); return true; }
        if (isBinary(x->op) && x->l->op == x->op) { out = bin(x->op, x->l->l, bin(x->op, x->l->r, x->r)); return true; }
        return false;
    };
    E q;
    if (s.draw(4) == 3 && regroup(e, q)) return q;
    if (e->op == Op::NUM) switch (s.draw(4)) {
        case 0: return num(e->v + 1 == e->v ? -e->v : e->v + 1);
        case 1: return e->v == 0 ? num(s.pick({4.9e-324, 1e-17, -1e-18, 1e-200})) : num(e->v * (1 + 1e-15) == e->v ? -e->v : e->v * (1 + 1e-15));
        default: return num(std::nextafter(e->v, s.coin() ? INFINITY : -INFINITY));
    }
    if (e->op == Op::VAR) return s.draw(3) == 2 ? num(1) : var(genNameLike(s, e->name));
    switch (s.draw(5)) {
    case 0:
        if (e->r) {
            E f = bin(e->op, e->r, e->l);
            if (!same(f, e)) return f;
            return bin(e->op == Op::ADD ? Op::SUB : Op::ADD, e->l, e->r);
        }
        return un(e->op == Op::SIN ? Op::COS : Op::SIN, e->l);
    case 1: return un(s.coin() ? Op::NEG : Op::POS, e);
    case 2:
        if (e->r) return bin(e->op == Op::SUB ? Op::ADD : e->op == Op::DIV ? Op::MUL : e->op == Op::AND ? Op::OR : Op::SUB, e->l, e->r);
        return e->l;
    default: return e->r && s.coin() ? bin(e->op, e->l, nearMiss(s, e->r)) : e->r ? bin(e->op, nearMiss(s, e->l), e->r) : un(e->op, nearMiss(s, e->l));
    }
}
int bigCount(Src &s) {
    switch (s.draw(8)) {
    default: return s.pick({127, 128, 129, 130, 255, 256, 257, 258});
    case 3: case 4: return (int)s.range(100, 1100);
    case 5: return s.pick({1023, 1024, 1025, 2048, 4095, 4096, 4097});
    case 6: return (int)s.range(2, 40);
    case 7: return s.pick({32767, 32768, 32769, 32770, 40000, 65535, 65536, 65537});
    }
}
std::string genName(Src &s) {
    static const std::vector<std::string> special = {"x", "y", "z", "a", "b", "e", "E", "pi", "_", "x1", "x_1", "_x", "sinx", "si", "sins", "Sin", "COS", "log1", "log20", "log100",
        "exp1", "expx", "e5", "E10", "x1e5", "inf1", "nanx", "arcsin1", "asinh", "arc", "ln", "sqrt2", "tanh", "__", "_1", "a_b_c", "xX", "d", "f", "F", "l", "L", "i", "j", "O0", "p", "x0x", "infinit", "na", "in", "arcsi", "t",
        // identifiers with the same 64-bit FNV-1a hash as cos, arctan, exp and sin
        "x2e", "x1E", "_0e", "e1e", "E2E", "a11E", "a_8zsgW6JQXc", "aikhpKs_Zhfc", "a7NkGecDclOc", "atwBhN87FrIf"};
    switch (s.draw(6)) {
    case 5: return genNameLike(s, s.pick(reservedWords()));
    case 0: case 1: return s.pick(std::vector<std::string>{"x", "y", "z", "a", "b", "c", "x1", "x2", "x10", "th"});
    case 2: return s.pick(special);
    default: {
        static const std::string first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", rest = first + "0123456789";
        int n = s.size(6, 120);
        std::string r(1, first[s.draw(first.size())]);
        for (int i = 0; i < n; i++) r += rest[s.draw(rest.size())];
        if (reservedName(r)) r += "_";
        return r;
    }
    }
}
Env genEnv(Src &s, const std::set<std::string> &names, int style) {
    Env e;
    for (auto &n : names) {
        double v;
        if (style == 0) v = s.pick({1.0, 2.0, 0.0, -1.0, 0.5, 3.0, -2.0, -0.5, 10.0, 7.0, 0.25, -3.0});
        else if (style == 1) v = (double)s.range(-4000, 4000) / 1000 + s.unit() / 1000;
        else if (style == 3) v = 0.2 + (double)s.range(0, 3000) / 1000; // positive moderate
        else { v = genNumber(s, 2); if (s.coin()) v = -v; }
        e[n] = v;
    }
    return e;
}
std::string showEnv(const Env &e) {
    std::string r = "{";
    for (auto &p : e) r += (r.size() > 1 ? ", " : "") + p.first + "=" + fmt(p.second);
    return r + "}";
}

// ---- text ----
static int prec(const E &e) {
    switch (e->op) {
    case Op::NUM: case Op::VAR: return 16;
    case Op::ADD: case Op::SUB: return 5;
    case Op::MUL: case Op::DIV: return 10;
    case Op::POW: return 11;
    case Op::AND: case Op::OR: return 12;
    case Op::MOD: return 13;
    case Op::POS: case Op::NEG: return 14;
    default: return 15;
    }
}
static std::string ws(Src &s, int style) {
    if (style == 0) return "";
    if (style == 1) return " ";
    if (s.draw(3) != 0) return "";
    std::string r;
    int n = (int)s.range(1, 3);
    for (int i = 0; i < n; i++) r += s.pick({' ', '\t', '\n', '\v', '\f', '\r'});
    return r;
}
std::string numText(Src &s, double v, bool plain) {
    char b[512];
    std::string t = fmt(v);
    switch (s.draw(7)) {
    case 1: snprintf(b, sizeof b, "%.17e", v); t = b; break;
    case 2: snprintf(b, sizeof b, "%.20E", v); t = b; break;
    case 3: if (v < 1e15 && v > 1e-4) { snprintf(b, sizeof b, "%.25f", v); t = b; } break;
    case 4: t = std::string((size_t)s.range(0, 3), '0') + t; break;
    case 5: if (v == std::floor(v) && v < 1e9) { snprintf(b, sizeof b, "%.0f.", v); t = b; } break;
    case 6: if (t.size() > 2 && t[0] == '0' && t[1] == '.') t = t.substr(1); break;
    default: break;
    }
    // drop the sign of a positive exponent now and then
    size_t k = t.find_first_of("eE");
    if (k != std::string::npos && k + 1 < t.size() && t[k + 1] == '+' && (plain || s.coin())) t.erase(k + 1, 1);
    if (strtod(t.c_str(), nullptr) != v) t = fmt(v);
    return t;
}
static std::string funcText(Src &s, Op o) {
    switch (o) {
    case Op::ASIN: return s.coin() ? "arcsin" : "asin";
    case Op::ACOS: return s.coin() ? "arccos" : "acos";
    case Op::ATAN: return s.coin() ? "arctan" : "atan";
    default: return opName(o);
    }
}
static void text(Src &s, const E &e, int min, int style, int parenStyle, std::string &o) {
    bool paren = prec(e) < min || (parenStyle == 1 && s.draw(5) == 4) || (parenStyle == 2 && !(e->op == Op::NUM || e->op == Op::VAR));
    if (paren) { o += "("; o += ws(s, style); min = 0; }
    if (e->op == Op::NUM) o += numText(s, e->v, false);
    else if (e->op == Op::VAR) o += e->name;
    else if (e->op == Op::POS || e->op == Op::NEG) {
        o += opName(e->op);
        o += ws(s, style);
        text(s, e->l, 14, style, parenStyle, o);
    } else if (isFunc(e->op)) {
        o += funcText(s, e->op);
        if (prec(e->l) >= 14 && !isFunc(e->l->op) && s.draw(4) == 3) {
            size_t at = o.size();
            o += ws(s, style);
            size_t mid = o.size();
            text(s, e->l, 14, style, parenStyle, o);
            if (mid == at && o[at] != '(' && o[at] != '+' && o[at] != '-') o.insert(at, " ");
        } else {
            o += ws(s, style) + "(" + ws(s, style);
            text(s, e->l, 0, style, parenStyle, o);
            o += ws(s, style) + ")";
        }
    } else {
        int p = prec(e);
        bool right = e->op == Op::POW;
        text(s, e->l, right ? p + 1 : p, style, parenStyle, o);
        o += ws(s, style);
        o += opName(e->op);
        o += ws(s, style);
        text(s, e->r, right ? p : p + 1, style, parenStyle, o);
    }
    if (paren) { o += ws(s, style); o += ")"; }
}
std::string genText(Src &s, const E &e) {
    std::string o;
    int style = (int)s.draw(3);
    int ps = (int)s.draw(3);
    if (style) o += ws(s, style);
    text(s, e, 0, style, ps, o);
    if (style) o += ws(s, style);
    return o;
}

// ---- recogniser ----
Syntax recognise(const std::string &t) {
    Syntax r;
    struct Tok { int kind; int pos; }; // kind: 0 operand, 1 prefix function, 2 sign, 3 binary, 4 '(' , 5 ')'
    std::vector<Tok> toks;
    auto isOp = [](char c) { return c && strchr("()+-*/^&|%", c); };
    auto isSp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    auto isDig = [](char c) { return c >= '0' && c <= '9'; };
    size_t i = 0, n = t.size();
    while (i < n) {
        char c = t[i];
        if (isSp(c)) { i++; continue; }
        if (isOp(c)) {
            int k = c == '(' ? 4 : c == ')' ? 5 : (c == '+' || c == '-') ? 2 : 3;
            if (k == 2 && !toks.empty() && (toks.back().kind == 0 || toks.back().kind == 5)) k = 3;
            toks.push_back({k, (int)i});
            i++;
            continue;
        }
        size_t b = i;
        while (i < n) {
            char d = t[i];
            if (isSp(d)) break;
            if (isOp(d)) {
                if ((d == '+' || d == '-') && i + 1 < n && isDig(t[i + 1]) && i - b >= 2 && (t[i - 1] == 'e' || t[i - 1] == 'E')) {
                    int dig = 0, dot = 0, other = 0;
                    for (size_t k = b; k + 1 < i; k++) isDig(t[k]) ? dig++ : t[k] == '.' ? dot++ : other++;
                    if (!other && dot <= 1 && dig > 0) { i++; continue; }
                }
                break;
            }
            i++;
        }
        std::string w = t.substr(b, i - b);
        static const std::set<std::string> f = {"sin", "cos", "tan", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "sqrt", "log", "log2", "log10", "exp"};
        // decimal literal?
        bool decimal = false;
        {
            size_t k = 0, dig = 0;
            while (k < w.size() && isDig(w[k])) k++, dig++;
            if (k < w.size() && w[k] == '.') { k++; while (k < w.size() && isDig(w[k])) k++, dig++; }
            if (dig) {
                if (k < w.size() && (w[k] == 'e' || w[k] == 'E')) {
                    size_t q = k + 1;
                    if (q < w.size() && (w[q] == '+' || w[q] == '-')) q++;
                    size_t q0 = q;
                    while (q < w.size() && isDig(w[q])) q++;
                    if (q > q0) k = q;
                }
                decimal = k == w.size();
            }
        }
        bool ident = !isDig(w[0]);
        for (char d : w) if (!(isDig(d) || d == '_' || (d >= 'a' && d <= 'z') || (d >= 'A' && d <= 'Z'))) ident = false;
        bool strtodAll = false, range = false;
        if (w.find('\0') == std::string::npos) {
            char *end;
            errno = 0;
            strtod(w.c_str(), &end);
            strtodAll = end == w.c_str() + w.size();
            range = errno == ERANGE;
        }
        if (f.count(w)) toks.push_back({1, (int)b});
        else if (decimal) { if (range) r.unspecified = true; toks.push_back({0, (int)b}); }
        else if (strtodAll) { r.unspecified = true; toks.push_back({0, (int)b}); } // hex, inf, nan spellings
        else if (ident) toks.push_back({0, (int)b});
        else {
            if (!r.illegalToken) r.illegalPos = (int)b;
            r.illegalToken = true;
            toks.push_back({0, (int)b});
        }
    }
    if (toks.empty()) { r.blank = true; return r; }
    std::vector<int> open;
    bool expect = true;
    for (size_t k = 0; k + 1 < toks.size(); k++) // "sin cos(x)": not spoken about
        if (toks[k].kind == 1 && toks[k + 1].kind == 1) r.unspecified = true;
    for (auto &k : toks) {
        bool starts = k.kind == 0 || k.kind == 1 || k.kind == 2 || k.kind == 4;
        if (starts != expect) r.badOrder = true;
        expect = !(k.kind == 0 || k.kind == 5);
        if (k.kind == 4) open.push_back(k.pos);
        if (k.kind == 5) {
            if (open.empty()) { if (r.closePos < 0) r.closePos = k.pos; r.badParen = true; }
            else open.pop_back();
        }
    }
    if (expect) r.badOrder = true;
    if (!open.empty()) { r.badParen = true; r.openPos = open; }
    r.ok = !r.illegalToken && !r.badParen && !r.badOrder;
    return r;
}
} // namespace model
