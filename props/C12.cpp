#include "bridge.h"
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C12";
const char *const kRule =
    "a case is one random expression over look-alike names and a random substitution (0..6 variables, sometimes hundreds; swaps, self-references, absent names, "
    "numbers including extremes); every form of Subs, const and moved, must give exactly the tree of reference simultaneous substitution, leave const "
    "arguments alone, share nothing with the replacements, and evaluate as under the extended assignment. Non-trivial: at least one named variable occurs.";
const Knobs kKnobs = {30, 150000, false};

// Equality of trees; NaN is equal to nothing, so trees that hold one are compared by their text.
static bool like(const ts::Node &a, const ts::Node &b, bool nans) { return nans ? a->ToString() == b->ToString() : a->Equal(b) && b->Equal(a); }

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    std::vector<std::string> names = {"x", "y", "xx", "x1", "_x", "X", "xy"};
    if (s.draw(12) == 11) { // long names that differ late
        std::string base(s.pick({7, 8, 15, 16, 30, 31, 32, 63, 64, 127, 128, 255, 256}) + s.draw(2), 'a');
        for (auto &t : {"", "b", "1", "_1", "aa"}) names.push_back(base + t);
        c.label("long names");
    }
    if (s.draw(4) == 0) for (int i = 0; i < 3; i++) names.push_back(s.coin() ? genNameLike(s, s.pick(names)) : genName(s));
    int many = s.draw(16) == 15 ? (int)s.range(20, 400) : 0; // a long list of names
    for (int i = 0; i < many; i++) names.push_back("v" + std::to_string(i));
    GenOpts o;
    o.vars = names;
    o.bitOps = s.draw(4) == 0;
    o.tame = true;
    o.maxSize = many || s.draw(8) == 7 ? 60 : 15;
    o.numStyle = (int)s.draw(2);
    E e = s.draw(12) == 0 ? var(s.pick(names)) : genExpr(s, o);
    bool numeric = s.draw(3) == 0;
    std::map<std::string, E> dict;
    std::map<std::string, double> values;
    if (many) {
        c.label("many names");
        for (int t = 0; t < 3; t++) e = bin(Op::ADD, e, var(s.pick(names)));
        if (!numeric) for (auto &v : names) if (s.draw(4)) dict[v] = s.coin() ? var(s.pick(names)) : num((double)s.range(-3, 3));
        if (numeric) for (auto &v : names) if (s.draw(4)) dict[v] = num(values[v] = (double)s.range(-3, 3));
    }
    int k = many ? 0 : s.draw(8) == 7 ? 0 : (int)s.range(1, s.draw(4) == 3 ? 6 : 3);
    GenOpts ro = o;
    ro.maxSize = 6;
    for (int i = 0; i < k; i++) {
        auto present = vars(e);
        std::string v = s.draw(10) == 9 ? std::string("absent") : s.draw(3) && !present.empty() ? s.pick(present) : s.pick(names);
        E r;
        if (numeric) {
            double d = genNumber(s, (int)s.draw(3));
            if (s.coin()) d = -d; // also -0.0
            if (s.draw(40) == 39) d = s.pick({(double)INFINITY, -(double)INFINITY, (double)NAN, 1e-300, 4.9406564584124654e-324});
            r = num(d);
            values[v] = d;
        } else switch (s.draw(5)) {
            case 0: r = var(s.pick(names)); break;
            case 1: r = bin(Op::ADD, var(v), num(1)); break;
            case 2: r = num((double)s.range(-3, 3)); break;
            default: r = genExpr(s, ro, (int)s.draw(5));
        }
        dict[v] = r;
    }
    if (!numeric && dict.size() >= 2 && s.draw(3) == 0) { // a swap
        auto a = dict.begin(), b = std::next(a);
        a->second = var(b->first);
        b->second = var(a->first);
    }
    c.describe([&](std::ostream &q) { q << "subs in " << show(e) << ":"; for (auto &p : dict) q << " " << p.first << "->" << show(p.second); });
    c.key = show(e);
    bool hit = false;
    for (auto &p : dict) { c.key += "|" + p.first + ">" + show(p.second); hit = hit || contains(e, p.first); }
    E want = subst(e, dict);
    ts::Node wantN = toNode(want), n = toNode(e, &s), keep = toNode(e);
    std::vector<std::string> list, rlist;
    std::map<std::string, ts::Node> nmap;
    for (auto &p : dict) { list.push_back(p.first); nmap[p.first] = toNode(p.second, &s); }
    for (size_t i = list.size(); i > 1; i--) std::swap(list[i - 1], list[s.draw(i)]); // any order
    ts::SymVec vec((int)std::max<size_t>(1, list.size()));
    for (size_t i = 0; i < list.size(); i++) vec[i] = toNode(dict[list[i]]);
    bool nans = false;
    for (auto &p : values) nans = nans || p.second != p.second;
    if (nans) c.label("NaN substituted");
    auto check = [&](const char *form, ts::Node r) {
        REQUIRE(r != nullptr, form, " returned nothing");
        r->CheckParent();
        REQUIRE(like(r, wantN, nans), form, " on ", show(e), " gives ", r->ToString(), " instead of ", wantN->ToString());
        // an independent copy: changing the result leaves everything else alone
        ts::Simplify(r);
        r += ts::Var("changed");
        r.reset();
        REQUIRE(n->Equal(keep), form, " (or using its result) changed its argument ", show(e));
        for (auto &p : dict) REQUIRE(like(nmap[p.first], toNode(p.second), nans), form, " changed the replacement of ", p.first);
        for (size_t i = 0; i < list.size(); i++) REQUIRE(like(vec[i], toNode(dict[list[i]]), nans), form, " changed the replacement vector");
    };
    check("Subs(map to expressions)", ts::Subs(n, nmap));
    check("Subs(temporary, map to expressions)", ts::Subs(ts::Clone(n), nmap));
    if (!list.empty()) {
        check("Subs(list, vector)", ts::Subs(n, list, vec));
        check("Subs(temporary, list, vector)", ts::Subs(ts::Clone(n), list, vec));
    }
    if (list.size() == 1) {
        check("Subs(name, expression)", ts::Subs(n, list[0], nmap[list[0]]));
        check("Subs(temporary, name, expression)", ts::Subs(ts::Clone(n), list[0], nmap[list[0]]));
    }
    if (numeric) {
        check("Subs(map to numbers)", ts::Subs(n, values));
        check("Subs(temporary, map to numbers)", ts::Subs(ts::Clone(n), values));
        if (!values.empty()) {
            ts::VarsTable t(values);
            check("Subs(table)", ts::Subs(n, t));
            check("Subs(temporary, table)", ts::Subs(ts::Clone(n), t));
        }
    }
    // aliasing: the expression itself as the replacement of one of its variables
    if (s.draw(4) == 0) {
        std::string v = s.pick(names);
        ts::Node self = ts::Subs(n, v, n);
        E w = subst(e, {{v, e}});
        REQUIRE(sameNode(self, w) && n->Equal(keep), "substituting ", show(e), " for ", v, " in itself gives ", self->ToString());
    }
    // value under the extended assignment
    auto all = vars(e);
    for (auto &v : vars(want)) all.insert(v);
    for (auto &p : dict) for (auto &v : vars(p.second)) all.insert(v);
    for (int t = 0; t < 2; t++) {
        Env env = genEnv(s, all, t ? 1 : 0), ext = env;
        for (auto &p : dict) ext[p.first] = eval(p.second, env).v;
        double a = valueAt(wantN, env), b = valueAt(n, ext);
        REQUIRE(sameBits(a, b) || (a != a && b != b), "value ", a, " after substituting, ", b, " under the extended assignment");
        if (!list.empty()) {
            double d = valueAt(ts::Subs(n, nmap), env);
            REQUIRE(sameBits(a, d) || (a != a && d != d), "value ", d);
        }
    }
    c.label("variables replaced: " + std::to_string(dict.size()));
    c.nontrivial = hit;
}
