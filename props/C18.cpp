#include "bridge.h"
using namespace pbt;
using namespace bridge;
const char *const kPropertyId = "C18";
const char *const kRule =
    "a case is a vector of 1..5 expressions (sometimes a 2-row matrix column made from a clone) over a subset of 5 names, a list of 1..7 names in random order (now and then one twice) "
    "possibly including absent ones, and 2 points; every entry is compared with the forward-mode derivative of the reference model where that is trustworthy. "
    "Non-trivial: at least one compared entry with a non-zero derivative and two or more entries.";
const Knobs kKnobs = {30, 30000, false};

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    const std::vector<std::string> names = {"x", "y", "z", "t1", "x_2", "w"};
    model::GenOpts o;
    o.maxSize = 8;
    o.tame = true;
    o.numStyle = (int)s.draw(2);
    int rows = (int)s.range(1, 5);
    std::vector<model::E> eq;
    ts::SymVec v(rows);
    for (int i = 0; i < rows; i++) {
        o.vars.clear();
        int k = (int)s.range(1, 3);
        for (int j = 0; j < k; j++) o.vars.push_back(names[s.draw(5)]);
        eq.push_back(model::genExpr(s, o, s.draw(6) ? (int)s.range(0, 8) : (int)s.range(0, 20)));
        v[(size_t)i] = toNode(eq[i], &s);
    }
    std::vector<std::string> list;
    std::vector<std::string> rest = names;
    int cols = (int)s.range(1, 6);
    for (int j = 0; j < cols; j++) { size_t p = s.draw(rest.size()); list.push_back(rest[p]); rest.erase(rest.begin() + (long)p); }
    if (s.draw(5) == 4) { // a name listed again
        list.insert(list.begin() + (long)s.draw(list.size() + 1), s.pick(list));
        cols++;
        c.label("repeated name");
    }
    if (s.draw(150) == 149) { // many names, most of them in no equation
        int more = (int)s.pick({3, 10, 60, 126, 255, 260, 300, 600});
        for (int j = 0; j < more; j++) list.insert(list.begin() + (long)s.draw(list.size() + 1), "n" + std::to_string(j));
        cols += more;
        c.label("many names");
    }
    c.describe([&](std::ostream &q) {
        for (auto &e : eq) q << model::show(e) << "; ";
        q << "by";
        for (auto &n : list) q << " " << n;
    });
    for (auto &e : eq) c.key += model::show(e) + ";";
    for (auto &n : list) c.key += n + ",";
    ts::SymVec keep(rows);
    for (int i = 0; i < rows; i++) keep[(size_t)i] = ts::Clone(v[(size_t)i]);
    ts::SymMat J = ts::Jacobian(v, list);
    REQUIRE(J.Rows() == rows && J.Cols() == cols, "the Jacobian of ", rows, " equations by ", cols, " names has shape ", J.Rows(), "x", J.Cols());
    REQUIRE(v == keep, "the equations changed");
    for (int t = 0; t < 2; t++) {
        std::set<std::string> all(names.begin(), names.end());
        all.insert(list.begin(), list.end());
        model::Env env = model::genEnv(s, all, s.coin() ? 3 : 1);
        for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) {
            const ts::Node &n = J.Value(i, j);
            REQUIRE(n != nullptr, "entry (", i, ", ", j, ") is null");
            if (t == 0) n->CheckParent();
            model::JetResult r = model::jets(eq[i], env, {list[j]});
            if (!r.ok || !(r.mass[1] < 1e8L)) { c.label("not comparable"); continue; }
            if (!model::contains(eq[i], list[j])) {
                double d = valueAt(n, env);
                REQUIRE(d == 0, "entry (", i, ", ", j, ") is ", d, " at ", model::showEnv(env), " but ", list[j], " does not occur in equation ", i);
                c.label("absent name");
                continue;
            }
            double d = valueAt(n, env);
            REQUIRE(std::fabs(d - (double)r.c[1]) <= 1e-9 * (double)(r.mass[1] + r.mass[0] + 1e-3), "entry (", i, ", ", j, ") = ", n->ToString(), " is ", d, " at ", model::showEnv(env), " but the derivative is ", (double)r.c[1]);
            c.label("compared");
            if (r.c[1] != 0 && rows * cols > 1) c.nontrivial = true;
        }
    }
}
