#include "bridge.h"
#include <algorithm>
#include <memory>
using namespace pbt;
using namespace bridge;
const char *const kPropertyId = "C22";
const char *const kRule =
    "a case is a history of up to 25 operations on a pool of variable tables (the three constructors with names in any order, copies, moves, assignments, SetValues, "
    "look-ups of present and absent names, comparisons under several epsilons) against a list of names plus a std::map. Non-trivial: two or more variables and three or more operations.";
const Knobs kKnobs = {30, 100000, false, 3};

namespace {
struct T {
    std::unique_ptr<ts::VarsTable> t;
    std::vector<std::string> order;
    std::map<std::string, double> m;
};
double value(Src &s) {
    switch (s.draw(6)) {
    case 0: return (double)s.range(-3, 3);
    case 1: return 1 + s.pick({0.0, 5e-10, 2e-9, 0.25, 0.5});
    case 2: return s.unit() * 100 - 50;
    case 3: return (s.coin() ? 1 : -1) * model::genNumber(s, 2);
    case 4: return s.pick({0.0, -0.0, 1e308, -1e-308, 4.9406564584124654e-324, (double)INFINITY, -(double)INFINITY, std::nan("")});
    default: return (double)s.range(-1000, 1000) / 8;
    }
}
std::vector<std::string> genNames(Src &s) {
    std::set<std::string> have;
    std::vector<std::string> r;
    int n = s.size(4, 30);
    if (n < 1) n = 1;
    while ((int)r.size() < n) {
        std::string v = s.draw(3) ? std::string(1, (char)('a' + s.draw(6))) + (s.coin() ? std::to_string(s.draw(12)) : "") : model::genName(s);
        if (!r.empty() && s.draw(4) == 3) v = model::genNameLike(s, s.pick(r));
        if (have.insert(v).second) r.push_back(v);
        else if (s.exhausted()) r.push_back("q" + std::to_string(r.size())), have.insert(r.back());
    }
    return r;
}
void check(const std::string &what, const T &x) {
    const ts::VarsTable &t = *x.t;
    int n = (int)x.m.size();
    REQUIRE(t.VarNums() == n, what, " counts ", t.VarNums(), " variables instead of ", n);
    REQUIRE(t.Vars() == x.order, what, " lists other names");
    REQUIRE(t.Values().Rows() == n && t.Values().Cols() == 1, what, " has ", t.Values().Rows(), " values");
    for (int i = 0; i < n; i++) {
        double w = x.m.at(x.order[(size_t)i]);
        REQUIRE(model::sameBits(t.Values()[(size_t)i], w), what, ": value ", i, " (", x.order[(size_t)i], ") is ", t.Values()[(size_t)i], " instead of ", w);
        REQUIRE(t.Has(x.order[(size_t)i]), what, " does not have ", x.order[(size_t)i]);
        REQUIRE(model::sameBits(t[x.order[(size_t)i]], w), what, "[", x.order[(size_t)i], "] is ", t[x.order[(size_t)i]], " instead of ", w);
    }
    auto it = t.begin();
    auto ct = t.cbegin();
    for (auto &v : x.m) {
        REQUIRE(it != t.end() && ct != t.cend(), what, ": the iteration ends early");
        REQUIRE(it->first == v.first && model::sameBits(it->second, v.second) && ct->first == v.first && model::sameBits(ct->second, v.second), what, ": iteration gives ", it->first, " = ", it->second, " instead of ", v.first, " = ", v.second);
        ++it;
        ++ct;
    }
    REQUIRE(it == t.end() && ct == t.cend(), what, ": the iteration goes on too long");
}
void absent(const std::string &what, const T &x, const std::string &name) {
    bool has = x.m.count(name) != 0;
    REQUIRE(x.t->Has(name) == has, what, ".Has(", name, ") is not ", has);
    try { double v = (*x.t)[name]; REQUIRE(has, what, "[", name, "] gave ", v, " for an absent name"); }
    catch (const std::out_of_range &) { REQUIRE(!has, what, "[", name, "] threw for a present name"); }
}
} // namespace

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    std::vector<T> pool;
    auto log = [&](const std::string &t) { c.note(t); c.key += t + ";"; };
    auto make = [&] {
        T x;
        std::vector<std::string> names = genNames(s);
        switch (s.draw(4)) {
        case 0: {
            double v = value(s);
            x.t.reset(new ts::VarsTable(names, v));
            x.order = names;
            for (auto &n : names) x.m[n] = v;
            log("table by names, " + model::fmt(v));
            break;
        }
        case 1: {
            for (auto &n : names) x.m[n] = value(s);
            x.t.reset(new ts::VarsTable(x.m));
            for (auto &v : x.m) x.order.push_back(v.first);
            log("table by map");
            break;
        }
        default: {
            names.resize(std::min<size_t>(names.size(), 4));
            std::vector<double> v;
            for (auto &n : names) { v.push_back(value(s)); x.m[n] = v.back(); }
            switch (names.size()) {
            case 1: x.t.reset(new ts::VarsTable({{names[0], v[0]}})); break;
            case 2: x.t.reset(new ts::VarsTable({{names[0], v[0]}, {names[1], v[1]}})); break;
            case 3: x.t.reset(new ts::VarsTable({{names[0], v[0]}, {names[1], v[1]}, {names[2], v[2]}})); break;
            default: x.t.reset(new ts::VarsTable({{names[0], v[0]}, {names[1], v[1]}, {names[2], v[2]}, {names[3], v[3]}})); break;
            }
            // the order of the names of a pair list is not promised: take the table's, it must be a permutation
            x.order = x.t->Vars();
            auto a = x.order, b = names;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            REQUIRE(a == b, "a table made from pairs lists other names");
            log("table by pairs");
            break;
        }
        }
        for (auto &n : x.order) log(n + "=" + model::fmt(x.m[n]));
        if (x.m.size() > 1) c.nontrivial = true;
        pool.push_back(std::move(x));
    };
    make();
    int ops = (int)s.range(1, s.draw(4) ? 10 : 25);
    for (int t = 0; t < ops; t++) {
        size_t i = s.draw(pool.size()), j = s.draw(pool.size());
        std::string mi = "t" + std::to_string(i), mj = "t" + std::to_string(j);
        switch (s.draw(10)) {
        case 0: if (pool.size() < 6) make(); break;
        case 1: if (pool.size() < 6) { // copy
            log("copy " + mi);
            T x{std::unique_ptr<ts::VarsTable>(new ts::VarsTable(*pool[i].t)), pool[i].order, pool[i].m};
            pool.push_back(std::move(x));
            break;
        }
        // fall through
        case 2: log(mi + " = " + mj); *pool[i].t = *pool[j].t; pool[i].order = pool[j].order; pool[i].m = pool[j].m; break;
        case 3: { // move through a temporary
            log("move " + mi);
            ts::VarsTable tmp(std::move(*pool[i].t));
            if (s.coin()) *pool[i].t = std::move(tmp);
            else pool[i].t.reset(new ts::VarsTable(std::move(tmp)));
            break;
        }
        case 4: case 5: case 6: { // set all values
            ts::Vec v((int)pool[i].order.size());
            std::string d;
            for (size_t k = 0; k < pool[i].order.size(); k++) {
                double x = s.draw(3) ? value(s) : pool[i].m[pool[i].order[k]];
                v[k] = x;
                pool[i].m[pool[i].order[k]] = x;
                d += " " + model::fmt(x);
            }
            log(mi + ".SetValues" + d);
            pool[i].t->SetValues(v);
            v.SetValue(77); // the table has its own copy
            break;
        }
        case 7: { // its own values back
            log(mi + ".SetValues(its own)");
            pool[i].t->SetValues(pool[i].t->Values());
            break;
        }
        case 8: { // look-ups
            std::string n = s.draw(3) == 0 ? pool[j].order[s.draw(pool[j].order.size())] : s.draw(4) == 3 ? std::string() : model::genName(s);
            log("look up " + n + " in " + mi);
            absent(mi, pool[i], n);
            break;
        }
        default: { // compare
            double eps = s.pick({1e-9, 0.3, 1e-3, 0.0});
            ts::Config::Get().epsilon = eps;
            bool near = false, want = pool[i].m.size() == pool[j].m.size();
            for (auto a = pool[i].m.begin(), b = pool[j].m.begin(); want && a != pool[i].m.end(); ++a, ++b) {
                double d = std::fabs(a->second - b->second);
                if (d == eps && eps != 0) near = true;
                if (!std::isfinite(d)) near = true;
                want = a->first == b->first && d <= eps;
            }
            if (!near) {
                log("compare " + mi + " " + mj);
                REQUIRE((*pool[i].t == *pool[j].t) == want && (*pool[j].t == *pool[i].t) == want, mi, " == ", mj, " is not ", want, " with epsilon ", eps);
                c.label(want ? "equal" : "different");
            }
            ts::Config::Get().epsilon = 1e-9;
            break;
        }
        }
        for (size_t k = 0; k < pool.size(); k++) check("t" + std::to_string(k), pool[k]);
    }
    c.nontrivial = c.nontrivial && ops >= 3;
}
