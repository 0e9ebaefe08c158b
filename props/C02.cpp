#include "bridge.h"
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C02";
const char *const kRule =
    "a case is one byte string: random bytes, random token soup, or a well-formed text with up to six random edits (insert, delete, replace, "
    "duplicate, swap or truncate characters or tokens). Parse must return a complete expression exactly when an independent recogniser "
    "accepts the string, and otherwise throw an exception derived from std::runtime_error, at the right offset where one is specified. "
    "Non-trivial: at least three bytes, of which one is an operand character.";
const Knobs kKnobs = {20, 150000, false};

static std::string quote(const std::string &t) {
    std::ostringstream o;
    for (unsigned char ch : t) {
        if (ch >= 32 && ch < 127 && ch != '\\') o << ch;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o << b; }
    }
    return o.str();
}
static std::string soupToken(Src &s) {
    static const std::vector<std::string> toks = {"+", "-", "*", "/", "^", "&", "|", "%", "(", ")", "x", "y1", "_a", "1", "2.5", ".5", "3.", "1e5", "1e-5", "2E+3", "sin", "log2", "log10",
        "sqrt", "arcsin", "acos", "exp", "sinx", "()", " ", "\t", "\n", "\v", "\f", "\r", "1x", "2a", ".", "..", "1.2.3", "e", "e5", "1e", "1e+", "1e-", "1e5.5", "1e+5e+5", "x1", "1_", "$", "#", "@", "!", "=", ",", ";",
        "x.y", "\xc3\xa9", "\xe4\xbd\xa0", "'", "\"", "\\", "[", "]", "{", "}", "~", "?", "<", ">", ":", "x'", "_", "5e3x", "1.e3", "0", "00", "1E5", "x+1", "(x)", "((", "))", ")(", "--", "++", "+-", "**", "//", "tan(", "log("};
    if (s.draw(12) == 11) return std::string(1, (char)s.draw(256));
    return s.pick(toks);
}

void property(Case &c) {
    resetConfig();
    Src &s = c.s;
    std::string t;
    switch (s.draw(8)) {
    case 0: { // bytes
        int n = s.size(12, 200);
        for (int i = 0; i < n; i++) t += (char)(s.draw(4) ? "()+-*/^&|% .0123456789eExyzsinlog_\t\n"[s.draw(37)] : (int)s.draw(256));
        break;
    }
    case 1: case 2: { // token soup
        int n = s.size(6, 40);
        for (int i = 0; i < n; i++) { t += soupToken(s); if (s.draw(3) == 0) t += " "; }
        break;
    }
    default: { // edited well-formed text
        GenOpts o;
        o.vars = {"x", "y", "z1"};
        o.negativeNumbers = false;
        o.bitOps = true;
        o.numStyle = (int)s.draw(3);
        o.maxSize = 16;
        t = genText(s, genExpr(s, o));
        int edits = (int)s.draw(5);
        if (edits == 4) edits = (int)s.range(3, 6);
        if (s.draw(6) == 0) edits = 0;
        if (s.draw(10) == 9) { // what other programs put before or after a text
            static const std::vector<std::string> ends = {"\xef\xbb\xbf", "\xc2\xa0", "\xe3\x80\x80", "\xff\xfe", "\xfe\xff", "\xe2\x80\x8b", "\x1a", ";", "=", "=0", "==", ":=", "//", "//x", "#", "#x", "\\", "\\n", "f", "_", "'", "\"", "$", ",", ".", "\x7f", "\xa0", "\x85",
                std::string(1, '\0'), std::string("\0x", 2), std::string("x\0", 2), std::string("\0+", 2), "\x1b[0m", "\b", "0b", "0x", "[", "]", "{", "}", "<", ">", "!", "~", "@"};
            const std::string &w = s.pick(ends);
            size_t where = s.draw(3);
            t.insert(where == 0 ? 0 : where == 1 ? t.size() : s.draw(t.size() + 1), w);
            if (s.coin()) edits = 0;
        }
        for (int k = 0; k < edits && t.size() < 4000; k++) {
            size_t p = s.draw(t.size() + 1);
            switch (s.draw(9)) {
            case 0: t.insert(p, soupToken(s)); break;
            case 1: if (p < t.size()) t.erase(p, 1); break;
            case 2: if (p < t.size()) t.replace(p, 1, soupToken(s)); break;
            case 3: if (p < t.size()) { size_t n = 1 + s.draw(6); t.insert(p, t.substr(p, n)); } break;
            case 4: if (p + 1 < t.size()) std::swap(t[p], t[p + 1]); break;
            case 5: t.resize(p); break;
            case 6: { size_t q = s.draw(t.size() + 1); if (q > p) t.erase(p, std::min<size_t>(q - p, 5)); break; }
            case 7: { // drop or add one parenthesis
                size_t q = t.find_first_of("()", p);
                if (q == std::string::npos) t.insert(p, s.coin() ? "(" : ")");
                else if (s.coin()) t.erase(q, 1);
                else t.insert(q, 1, t[q]);
                break;
            }
            default: { // an illegal token in place of an operand
                size_t q = t.find_first_of("xyz0123456789", p);
                if (q != std::string::npos) t.insert(q, s.pick({"$", "1a", "9_", "x.y", "\x80", "?"}));
                break;
            }
            }
        }
    }
    }
    if (s.draw(96) == 95) { // long or deeply nested
        int n = bigCount(s);
        auto near = [&] { return (size_t)std::max<int64_t>(0, n + s.pick({0, 0, 0, 1, -1})); };
        switch (s.draw(6)) {
        case 0: { size_t a = near(), b = near(); t = std::string(a, '(') + t + std::string(b, ')'); break; }
        case 1: t = std::string((size_t)n, s.pick({' ', '\t', '\n'})) + t; break;
        case 2: { size_t p = s.draw(t.size() + 1); t.insert(p, std::string((size_t)n, s.pick({' ', '(', ')', '-', '+'}))); break; }
        case 3: t += std::string((size_t)n, s.pick({' ', ' ', ')', 'x', '1'})); break;
        case 4: { std::string r; for (int i = 0; i < n; i++) r += s.coin() ? "1+" : "x*"; t = r + t; break; }
        default: { std::string r = s.pick({"sin(", "(-", "2^(", "x-("}), p; for (int i = 0; i < n; i++) p += r; t = p + t + std::string(near(), ')'); break; }
        }
        c.label("long text");
    }
    Syntax want = recognise(t);
    c.describe([&](std::ostream &q) {
        q << "parse \"" << quote(t) << "\" expected " << (want.unspecified ? "unspecified" : want.ok ? "accepted" : "rejected") << (want.illegalToken ? " illegal-token" : "")
          << (want.badParen ? " parenthesis" : "") << (want.badOrder ? " order" : "") << (want.blank ? " blank" : "");
    });
    c.key = t;
    c.nontrivial = t.size() >= 3 && t.find_first_of("xyz0123456789") != std::string::npos;
    bool ok = false;
    ts::Node n;
    int pos = -2, line = -2;
    bool single = false;
    std::string what;
    try {
        n = ts::Parse(t);
        ok = true;
    } catch (const ts::SingleParseError &e) {
        single = true;
        pos = e.GetPos();
        line = e.GetLine();
        what = e.what();
    } catch (const std::runtime_error &e) {
        what = e.what();
    } // anything else is reported by the runner as an unexpected exception
    if (ok) { // complete: it can be printed, checked, substituted into and evaluated
        REQUIRE(n != nullptr, "no expression for \"", quote(t), "\"");
        n->CheckParent();
        std::string p = n->ToString();
        REQUIRE(!p.empty(), "empty expression for \"", quote(t), "\"");
        Env env;
        for (auto &v : n->GetAllVarNames()) env[v] = 0.75;
        valueAt(n, env);
    }
    if (want.unspecified) { c.label("unspecified token"); return; }
    c.label(want.ok ? "accepted" : "rejected");
    if (ok != want.ok) failf("\"", quote(t), "\" was ", ok ? "accepted as " + n->ToString() : "rejected (" + what + ")", " but the grammar ", want.ok ? "accepts" : "rejects", " it");
    if (ok) return;
    int kinds = want.illegalToken + want.badParen + want.badOrder + want.blank;
    if (kinds == 1 && want.illegalToken) {
        c.label("only illegal tokens");
        REQUIRE(single, "illegal token in \"", quote(t), "\" not reported as a single parse error: ", what);
        REQUIRE(line == 0 && pos == want.illegalPos, "illegal token in \"", quote(t), "\" reported at (", line, ", ", pos, ") instead of (0, ", want.illegalPos, ")");
    }
    if (kinds == 1 && want.badParen) {
        c.label("only unmatched parentheses");
        REQUIRE(single, "unmatched parenthesis in \"", quote(t), "\" not reported as a single parse error: ", what);
        REQUIRE(line == 0, "line ", line);
        if (want.closePos >= 0) REQUIRE(pos == want.closePos, "unmatched ) in \"", quote(t), "\" reported at ", pos, " instead of ", want.closePos);
        else {
            bool found = false;
            for (int p : want.openPos) found = found || p == pos;
            REQUIRE(found, "unmatched ( in \"", quote(t), "\" reported at ", pos);
        }
    }
}
