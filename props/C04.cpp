#include "bridge.h"
#include <cstring>
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C04";
const char *const kRule =
    "a case is eight doubles (uniform bit patterns, neighbours of powers of ten and two, integers, fractions, denormals, both signs); each "
    "text is checked for its format, its accuracy with strtod and the library parser. Non-trivial: at least one of them has a fractional part or needs an exponent.";
const Knobs kKnobs = {20, 80000, false};

static double gen(Src &s) {
    double v;
    switch (s.draw(8)) {
    case 0: { // any bit pattern
        uint64_t b = s.draw(0) & 0x7fffffffffffffffull;
        memcpy(&v, &b, 8);
        if (!std::isfinite(v)) v = (double)b;
        break;
    }
    case 1: { uint64_t b = s.draw(1ull << 52); memcpy(&v, &b, 8); break; } // denormal
    case 2: { // exponent in the printable range
        v = (1 + s.unit()) * std::pow(2.0, (double)s.range(-60, 60));
        break;
    }
    case 3: { // boundaries of the two formats
        v = s.pick({1e16, 1e-16, 1.0, 0.1, 1e15, 1e-15});
        int k = (int)s.range(0, 4);
        double to = s.coin() ? INFINITY : 0.0;
        while (k--) v = std::nextafter(v, to);
        break;
    }
    case 4: v = (double)s.range(1, 999999) / std::pow(10.0, (double)s.range(0, 12)); break;
    case 5: v = (double)s.range(1, 99) * std::pow(10.0, (double)s.range(-30, 30)); break;
    default: v = genNumber(s, 2); break;
    }
    return s.coin() ? -v : v;
}
static bool digits(const std::string &t, size_t &i) {
    size_t b = i;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++;
    return i > b;
}

void property(Case &c) {
    resetConfig();
    for (int k = 0; k < 8; k++) {
        double v = gen(c.s);
        std::string t = ts::ToString(v);
        c.describe([&](std::ostream &q) { q << fmt(v) << " -> \"" << t << "\"; "; });
        c.key += fmt(v) + " ";
        double a = std::fabs(v);
        if (v == 0) {
            REQUIRE(t == "0", "zero prints as ", t);
            continue;
        }
        if (a != std::floor(a) || a >= 1e16) c.nontrivial = true;
        // format
        size_t i = 0;
        bool neg = t[0] == '-';
        if (neg) i++;
        REQUIRE(neg == (v < 0), "sign of ", v, " in ", t);
        size_t b = i;
        REQUIRE(digits(t, i), "format of ", v, ": ", t);
        REQUIRE(t[b] != '0' || i - b == 1, "leading zero in ", t);
        size_t intEnd = i;
        if (i < t.size() && t[i] == '.') {
            i++;
            REQUIRE(digits(t, i), "trailing decimal point in ", t);
            REQUIRE(t[i - 1] != '0', "redundant trailing zero in ", t, " of ", v);
        }
        bool sci = i < t.size();
        if (sci) {
            REQUIRE(t[i] == 'e', "format of ", v, ": ", t);
            REQUIRE(intEnd - b == 1 && t[b] != '0', "mantissa of ", t);
            i++;
            if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
            REQUIRE(digits(t, i) && i == t.size(), "exponent of ", t);
        }
        REQUIRE(sci == (a >= 1e16 || a <= 1e-16), "notation of ", v, ": ", t);
        // accuracy
        double r = strtod(t.c_str(), nullptr);
        if (a >= 1 || a <= 1e-16) REQUIRE(sameBits(r, v), v, " prints as ", t, " which reads as ", r);
        else REQUIRE(std::fabs(r - v) <= 1e-16, v, " prints as ", t, " which reads as ", r);
        // the library's own parser
        if (a >= 2.2250738585072014e-308) {
            ts::Node n;
            try {
                n = ts::Parse(t);
            } catch (const std::exception &x) {
                failf("the text ", t, " of ", v, " cannot be parsed: ", x.what());
            }
            double p = n->Vpa();
            REQUIRE(sameBits(p, r), "the parser reads ", t, " as ", p);
        }
        REQUIRE(ts::Num(v)->ToString() == t, "node text ", ts::Num(v)->ToString());
    }
}
