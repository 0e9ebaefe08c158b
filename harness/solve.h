// Shared pieces of the nonlinear-solver properties.
#pragma once
#include "bridge.h"
#include <algorithm>
#include <cstring>

namespace solve {
using namespace pbt;
using namespace bridge;
typedef std::vector<std::string> Names;

enum Method { NR, LM, BY_CONFIG, NO_TABLE };
inline const char *text(Method m) { static const char *t[] = {"SolveByNewtonRaphson", "SolveByLM", "Solve with a table", "Solve without a table"}; return t[m]; }

inline ts::SymVec toSystem(const std::vector<model::E> &eq, Src *s = nullptr) {
    ts::SymVec v((int)eq.size());
    for (size_t i = 0; i < eq.size(); i++) v[i] = toNode(eq[i], s);
    return v;
}
// a table with exactly these names and values, in this order, or any way of building it
inline ts::VarsTable toTable(Src &s, const Names &n, const std::vector<double> &v) {
    switch (s.draw(2)) {
    case 0: {
        ts::VarsTable t(n, 0.0);
        ts::Vec q((int)n.size());
        for (size_t i = 0; i < n.size(); i++) q[i] = v[i];
        t.SetValues(q);
        return t;
    }
    default: {
        std::map<std::string, double> m;
        for (size_t i = 0; i < n.size(); i++) m[n[i]] = v[i];
        return ts::VarsTable(m);
    }
    }
}
inline ts::VarsTable run(Method m, const ts::SymVec &eq, const ts::VarsTable &t) {
    switch (m) {
    case NR: return ts::SolveByNewtonRaphson(eq, t);
    case LM: return ts::SolveByLM(eq, t);
    case BY_CONFIG: return ts::Solve(eq, t);
    default: return ts::Solve(eq);
    }
}
inline std::map<std::string, double> asMap(const ts::VarsTable &t) { return std::map<std::string, double>(t.begin(), t.end()); }
// the i-th listed name has the i-th value, and the map agrees
inline void consistent(const ts::VarsTable &t) {
    REQUIRE(t.VarNums() == (int)t.Vars().size() && t.Values().Rows() == t.VarNums(), "the returned table counts ", t.VarNums(), " variables");
    for (int i = 0; i < t.VarNums(); i++) {
        double a = t.Values()[(size_t)i], b = t[t.Vars()[(size_t)i]];
        REQUIRE(model::sameBits(a, b) || (a != a && b != b), "the returned table has ", t.Vars()[(size_t)i], " = ", b, " by name but ", a, " by position");
    }
}
struct Snapshot { // the configuration, compared bit for bit
    ts::Config c = ts::Config::Get();
    void check(const char *when) const {
        const ts::Config &d = ts::Config::Get();
        REQUIRE(d.throwOnInvalidValue == c.throwOnInvalidValue && model::sameBits(d.epsilon, c.epsilon) && d.logLevel == c.logLevel && d.maxIterations == c.maxIterations &&
                    d.nonlinearMethod == c.nonlinearMethod && model::sameBits(d.initialValue, c.initialValue) && d.allowIndeterminateEquation == c.allowIndeterminateEquation,
                "the configuration changed ", when);
    }
};
inline std::string show(const std::vector<model::E> &eq) {
    std::string o;
    for (auto &e : eq) o += model::show(e) + "; ";
    return o;
}
inline std::string showConfig() {
    const ts::Config &c = ts::Config::Get();
    std::ostringstream o;
    o << "[" << (c.nonlinearMethod == ts::NonlinearMethod::LM ? "LM" : "NR") << " eps=" << c.epsilon << " maxIterations=" << c.maxIterations << " throw=" << c.throwOnInvalidValue
      << " initialValue=" << c.initialValue << " indeterminate=" << c.allowIndeterminateEquation << "]";
    return o.str();
}
inline std::string show(const Names &n, const std::vector<double> &v) {
    std::string o = "(";
    for (size_t i = 0; i < n.size(); i++) o += (i ? ", " : "") + n[i] + "=" + model::fmt(v[i]);
    return o + ")";
}
inline model::E mul(model::E a, model::E b) { return model::bin(model::Op::MUL, a, b); }
inline model::E add(model::E a, model::E b) { return model::bin(model::Op::ADD, a, b); }
inline model::E sub(model::E a, model::E b) { return model::bin(model::Op::SUB, a, b); }
} // namespace solve
