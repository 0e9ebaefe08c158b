#include "bridge.h"
#include "scriptgen.h"
#define INTERP_NS interp_lib
#include "interp.inc"
#include "C24/units.h"
using namespace pbt;
const char *const kPropertyId = "C24";
const char *const kRule =
    "a case is a script of up to 30 public API calls (expressions, texts, configuration, matrices, symbolic matrices, tables, solvers; successful and failing), run on "
    "the library and on the single header in one process; every value (bit for bit, or up to rounding in matrix arithmetic and solving), text, exception type and message must agree. Two translation units include the single "
    "header and must share its configuration. Non-trivial: five or more calls with a result.";
const Knobs kKnobs = {60, 20000, false, 4};

// Do two entries differ only by numbers? The largest difference of two numbers at the same place, relative to the largest number; -1: the rest differs.
static double distance(const std::string &a, const std::string &b) {
    const char *p = a.c_str(), *q = b.c_str();
    double most = 0, scale = 0;
    auto number = [](const char *begin, const char *s, char *&end, double &v) {
        bool start = s == begin || !(isalnum((unsigned char)s[-1]) || s[-1] == '_' || s[-1] == '.');
        if (!start || !(isdigit((unsigned char)*s) || (*s == '-' && isdigit((unsigned char)s[1])))) return false;
        v = strtod(s, &end);
        return true;
    };
    while (*p || *q) {
        char *pe = nullptr, *qe = nullptr;
        double x = 0, y = 0;
        bool np = number(a.c_str(), p, pe, x), nq = number(b.c_str(), q, qe, y);
        if (np != nq) return -1;
        if (np) {
            most = std::max(most, std::fabs(x - y));
            scale = std::max({scale, std::fabs(x), std::fabs(y)});
            p = pe;
            q = qe;
        } else {
            if (*p != *q) return -1;
            p++;
            q++;
        }
    }
    return most == 0 ? 0 : most / scale;
}
// Matrix arithmetic and solving may add in another order in one of the two. Such a difference is accepted when changing the numbers
// of the script by about 1e-12 moves the library's own result by at least ten times as much (or into a result of the header's kind).
static bool isRounding(const script::Script &p, size_t i, bool second) {
    switch (p[i].op) {
    case script::MAT_BIN: case script::MAT_UN: case script::MAT_NUMBER: case script::LINEAR: case script::VEC_BIN: case script::SOLVE: case script::SEARCH: break;
    default: return false;
    }
    struct Full {
        Full() { script::fullText() = true; }
        ~Full() { script::fullText() = false; }
    } full;
    auto runLib = [](const script::Script &s) {
        tomsolver::Config::Get().Reset();
        interp_lib::Interp l;
        l.run(s);
        tomsolver::Config::Get().Reset();
        return l.log;
    };
    single1Reset();
    std::string one = (second ? single1Run : single2Run)(p)[i], lib = runLib(p)[i];
    single1Reset();
    double d = distance(lib, one);
    if (p[i].op == script::SOLVE && d >= 0 && d <= 1e-10) return true; // iterations forget their start, but not the rounding of the last step
    uint64_t r = 88172645463325252ull;
    for (int k = 0; k < 8; k++) {
        script::Script q = p;
        for (size_t j = 0; j <= i; j++) {
            auto shake = [&](double &x) {
                r ^= r << 13, r ^= r >> 7, r ^= r << 17;
                x *= 1 + 1e-12 * ((double)(r % 2001) / 1000 - 1);
            };
            if (q[j].op < script::MAT) continue;
            if (q[j].op != script::TEXT_OF_NUMBER && q[j].op != script::MATH_OP) shake(q[j].x);
            for (double &x : q[j].v) shake(x);
        }
        std::string moved = runLib(q)[i];
        double e = distance(lib, moved);
        if (e < 0 ? distance(one, moved) >= 0 : d >= 0 && d <= 0.1 * e) return true;
    }
    return false;
}

// An expression with several faults: which of them is reported is not compared.
static bool sameFault(const script::Instr &i, const std::string &a, const std::string &b) {
    size_t p = a.find(": !");
    if (p == std::string::npos || a.compare(0, p, b, 0, p)) return false;
    auto both = [&](const std::string &w) { return a.compare(p + 2, w.size(), w) == 0 && b.compare(p + 2, w.size(), w) == 0; };
    static const std::string invalid = "!MathError " + std::to_string((int)tomsolver::ErrorType::ERROR_INVALID_NUMBER) + " ";
    return both("!runtime_error can not apply diff for ") || (i.op != script::MATH_OP && both(invalid));
}

void property(Case &c) {
    script::Script p = script::generate(c.s, 30, true);
    c.describe([&](std::ostream &o) { o << script::show(p); });
    bool second = c.s.coin();
    tomsolver::Config::Get().Reset();
    (second ? single1Reset : single2Reset)(); // through the other unit
    REQUIRE(single1Config() == single2Config(), "two translation units including the single header have different configurations");
    interp_lib::Interp lib;
    lib.run(p);
    std::vector<std::string> one = (second ? single2Run : single1Run)(p);
    tomsolver::Config::Get().Reset();
    single1Reset();
    REQUIRE(one.size() == lib.log.size(), "different numbers of results");
    size_t useful = 0;
    for (size_t i = 0; i < one.size(); i++) {
        if (lib.log[i] != one[i] && sameFault(p[i], lib.log[i], one[i])) continue;
        if (lib.log[i] != one[i] && isRounding(p, i, second)) {
            c.label("rounding differs");
            break;
        }
        REQUIRE(lib.log[i] == one[i], "call ", i, "\n library:       ", lib.log[i], "\n single header: ", one[i]);
        size_t colon = one[i].find(": ");
        if (one[i].size() > colon + 2) { useful++; c.label(std::string(one[i].find("!") == colon + 2 ? "exception " : "result ") + script::name(p[i].op)); }
        c.key += one[i];
    }
    c.nontrivial = useful >= 5;
}
