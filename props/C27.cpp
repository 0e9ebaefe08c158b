#include "bridge.h"
#include <algorithm>
#include <cstring>
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C27";
const char *const kRule =
    "a case is one of: a random constant expression with invalid operations (the message must name one of the operations that fail first, with its operands as they print); a text with 1..5 misplaced "
    "operands at known offsets, or with random faults (the message must quote the text with a caret at the reported position, once per misplaced operand, left to right); a math error made with random extra "
    "information, copied and assigned; a bad name or an absent one; a solve whose kind of failure is known. Messages are read after the input is overwritten and freed. Non-trivial: an exception was thrown and judged.";
const Knobs kKnobs = {20, 60000, false, 2};

namespace {
// the text of an exception, read after everything it came from is gone
struct Caught {
    std::exception_ptr p;
    std::string what() const {
        try { std::rethrow_exception(p); } catch (const std::exception &e) { return e.what(); }
    }
    template <class T> bool is() const {
        try { std::rethrow_exception(p); } catch (const T &) { return true; } catch (...) { return false; }
    }
    int kind() const {
        try { std::rethrow_exception(p); } catch (const ts::MathError &e) { return (int)e.GetErrorType(); } catch (...) { return -1; }
    }
};
template <class F> Caught catching(F &&f) {
    Caught c;
    try { f(); } catch (const std::exception &) { c.p = std::current_exception(); }
    return c;
}
Caught parsing(const std::string &text) {
    std::unique_ptr<std::string> t(new std::string(text));
    Caught c = catching([&] { ts::Parse(*t); });
    std::fill(t->begin(), t->end(), '#');
    t.reset();
    return c;
}
const std::vector<ts::ErrorType> &kinds() {
    using T = ts::ErrorType;
    static const std::vector<T> k = {T::ERROR_INVALID_NUMBER, T::ERROR_ILLEGALCHAR, T::ERROR_INVALID_VARNAME, T::ERROR_WRONG_EXPRESSION, T::ERROR_EMPTY_INPUT, T::ERROR_UNDEFINED_VARIABLE, T::ERROR_SUBS_NOT_EQUAL,
        T::ERROR_NOT_LINK_VARIABLETABLE, T::ERROR_OUTOF_DOMAIN, T::ERROR_VAR_COUNT_NOT_EQUAL_NUM_COUNT, T::ERROR_VAR_HAS_BEEN_DEFINED, T::ERROR_INDETERMINATE_EQUATION, T::ERROR_SINGULAR_MATRIX,
        T::ERROR_INFINITY_SOLUTIONS, T::ERROR_OVER_DETERMINED_EQUATIONS, T::SIZE_NOT_MATCH};
    return k;
}
bool starts(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }
std::string opText(Op o) {
    static const char *const t[] = {"", "", "+", "-", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp", "+", "-", "*", "/", "^", "&", "|", "%"};
    return t[(int)o];
}
// ---- invalid numbers ----
struct Failing { Op op; double a, b; };
double walk(const E &e, std::vector<Failing> &out) { // innermost invalid operations
    if (e->op == Op::NUM) return e->v;
    double a = walk(e->l, out), b = e->r ? walk(e->r, out) : 0;
    double v = apply(e->op, a, b);
    if (!std::isfinite(v) && std::isfinite(a) && std::isfinite(b)) out.push_back({e->op, a, b});
    return v;
}
void invalidNumber(Case &c) {
    Src &s = c.s;
    GenOpts o;
    o.bitOps = s.draw(4) == 3;
    o.numStyle = (int)s.draw(3);
    o.maxSize = 10;
    E e = genExpr(s, o, (int)s.range(1, 8));
    auto bad = [&]() -> E {
        double k = genNumber(s, (int)s.draw(3)) + 1;
        switch (s.draw(7)) {
        case 0: return bin(Op::DIV, num(s.coin() ? k : -k), num(0));
        case 1: return un(Op::LOG, num(-std::fabs(k)));
        case 2: return un(Op::SQRT, num(-std::fabs(k) - 1));
        case 3: return un(s.coin() ? Op::ASIN : Op::ACOS, num(1 + std::fabs(k)));
        case 4: return bin(Op::POW, num(-std::fabs(k) - 1), num(0.5));
        case 5: return un(Op::EXP, num(1000 + std::fabs(k)));
        default: return bin(Op::MUL, num(1e200), num(s.coin() ? 1e200 : -1e250));
        }
    };
    for (int k = (int)s.range(1, 2); k > 0; k--) e = s.coin() ? bin(s.pick({Op::ADD, Op::MUL, Op::SUB, Op::DIV}), e, bad()) : s.coin() ? bin(s.pick({Op::ADD, Op::SUB}), bad(), e) : un(s.pick({Op::NEG, Op::SIN, Op::ATAN}), bin(Op::ADD, bad(), e));
    std::vector<Failing> f;
    walk(e, f);
    c.describe([&](std::ostream &q) { q << "evaluate " << show(e); });
    c.key = show(e);
    if (f.empty()) throw Discard{};
    Caught x;
    {
        ts::Node n = toNode(e, &s);
        x = s.coin() ? catching([&] { n->Vpa(); }) : catching([&] { n->Calc(); });
    }
    REQUIRE(x.p, "no exception");
    REQUIRE(x.kind() == (int)ts::ErrorType::ERROR_INVALID_NUMBER, "kind ", x.kind());
    std::string w = x.what(), head = ts::GetErrorInfo(ts::ErrorType::ERROR_INVALID_NUMBER);
    REQUIRE(starts(w, head), "the message \"", w, "\" does not begin with \"", head, "\"");
    bool named = false;
    for (auto &i : f) {
        std::string want = isUnary(i.op) ? opText(i.op) + " " + ts::ToString(i.a) : ts::ToString(i.a) + " " + opText(i.op) + " " + ts::ToString(i.b);
        auto at = w.find(want);
        if (at == std::string::npos) continue;
        auto part = [](char ch) { return isalnum((unsigned char)ch) || ch == '.' || ch == '-' || ch == '+'; };
        named = named || ((at == 0 || !part(w[at - 1])) && (at + want.size() == w.size() || !part(w[at + want.size()])));
    }
    REQUIRE(named, "the message \"", w, "\" does not name the failing operation ", ts::ToString(f[0].a), " ", opText(f[0].op), isUnary(f[0].op) ? "" : " " + ts::ToString(f[0].b), f.size() > 1 ? " (or another one)" : "");
    c.nontrivial = true;
    c.label("invalid number");
}
// ---- parse errors ----
std::string block(const std::string &text, int pos) { return text + "\n" + std::string((size_t)pos, ' ') + "^"; }
std::string piece(Src &s, int size) { // a text that starts like an operand and not with a sign
    GenOpts o;
    o.vars = {"x", "y", "long_name1"};
    o.negativeNumbers = false;
    o.numStyle = (int)s.draw(2);
    o.maxSize = size;
    for (int t = 0;; t++) {
        std::string r = t > 5 ? "x" : genText(s, genExpr(s, o, (int)s.range(0, size)));
        size_t a = r.find_first_not_of(" \t\n\v\f\r"), b = r.find_last_not_of(" \t\n\v\f\r");
        r = r.substr(a, b - a + 1);
        if (r[0] != '+' && r[0] != '-') return r;
    }
}
struct Broken { std::string text; std::vector<int> at; };
Broken broken(Src &s, int depth) { // operands next to each other, somewhere
    Broken r;
    r.text = piece(s, 3);
    int k = (int)s.range(1, s.draw(24) == 23 ? 60 : 3), size = k > 3 ? 1 : 3;
    for (int i = 0; i < k; i++) {
        std::string p = piece(s, size);
        bool tight = (r.text.back() == ')' && (p[0] == '(' || isalpha((unsigned char)p[0]))) && s.coin();
        if (!tight) r.text += std::string((size_t)s.range(1, 3), s.pick({' ', ' ', '\t'}));
        r.at.push_back((int)r.text.size());
        r.text += p;
    }
    if (depth <= 0) return r;
    auto prepend = [&](const std::string &p) {
        for (int &a : r.at) a += (int)p.size();
        r.text = p + r.text;
    };
    switch (s.draw(5)) {
    case 0: prepend(s.pick({std::string("("), std::string("sin("), std::string("sqrt ( ")})); r.text += ")"; break;
    case 1: prepend(piece(s, 2) + s.pick({std::string("+"), std::string(" * "), std::string("^"), std::string("-")})); break;
    case 2: r.text += s.pick({std::string("+"), std::string(" / "), std::string("%"), std::string("-")}) + piece(s, 2); break;
    case 3: prepend(s.pick({std::string("-"), std::string(" +"), std::string("  ")})); break;
    default: { // two of them
        prepend("(");
        r.text += ")*(";
        Broken q = broken(s, depth - 1);
        for (int a : q.at) r.at.push_back(a + (int)r.text.size());
        r.text += q.text + ")";
    }
    }
    return r;
}
void misplaced(Case &c) {
    Src &s = c.s;
    Broken b = broken(s, (int)s.draw(3));
    if (s.draw(48) == 47) { // far to the right
        int n = bigCount(s);
        for (int &a : b.at) a += n;
        b.text = std::string((size_t)n, s.coin() ? ' ' : '-') + b.text;
        c.label("long text");
    }
    c.describe([&](std::ostream &q) { q << "parse \"" << b.text << "\" misplaced operands at"; for (int a : b.at) q << " " << a; });
    c.key = b.text;
    Syntax g = recognise(b.text);
    if (g.unspecified || g.illegalToken || g.badParen || !g.badOrder) throw Discard{};
    Caught x = parsing(b.text);
    REQUIRE(x.p, "accepted");
    REQUIRE(x.is<ts::MultiParseError>(), "not a MultiParseError: ", x.what());
    std::string w = x.what();
    size_t from = 0;
    for (int a : b.at) {
        std::string want = block(b.text, a);
        size_t at = w.find(want, from);
        REQUIRE(at != std::string::npos, "no (further) error with a caret at ", a, " in \"", w, "\"");
        from = at + want.size();
    }
    size_t carets = 0, own = (size_t)std::count(b.text.begin(), b.text.end(), '^') * b.at.size();
    carets = (size_t)std::count(w.begin(), w.end(), '^');
    // the quoted tokens themselves may hold carets only when they are one, which is no operand
    REQUIRE(carets == own + b.at.size(), "the message holds ", carets - own, " carets for ", b.at.size(), " misplaced operands: ", w);
    c.nontrivial = true;
    c.label("misplaced operands");
}
void anyFault(Case &c) {
    Src &s = c.s;
    std::string t = piece(s, 4);
    for (int k = (int)s.range(1, 3); k > 0; k--) {
        size_t p = s.draw(t.size() + 1);
        t.insert(p, s.pick({std::string("("), std::string(")"), std::string("$"), std::string(" 1a "), std::string("*"), std::string(" "), std::string("\xc3\xa9"), std::string("x.y"), std::string("\n")}));
    }
    if (s.draw(48) == 47) { t = std::string((size_t)bigCount(s), s.pick({' ', ' ', '-', '('})) + t; c.label("long text"); }
    if (s.draw(12) == 11) t = s.pick({std::string(""), std::string("   "), std::string("()"), std::string(")"), std::string("(")});
    c.describe([&](std::ostream &q) { q << "parse \"" << t << "\""; });
    c.key = t;
    Caught x = parsing(t);
    if (!x.p) throw Discard{};
    std::string w = x.what();
    REQUIRE(!w.empty(), "empty message");
    if (x.is<ts::SingleParseError>()) {
        int pos = -1;
        try { std::rethrow_exception(x.p); } catch (const ts::SingleParseError &e) {
            pos = e.GetPos();
            ts::SingleParseError copy(e);
            REQUIRE(copy.GetPos() == pos && copy.GetLine() == e.GetLine() && std::string(copy.what()) == w, "a copy of the error differs");
        }
        REQUIRE(pos >= 0 && pos <= (int)t.size(), "position ", pos);
        Syntax g = recognise(t);
        if (!g.unspecified && g.illegalToken) REQUIRE(pos == g.illegalPos || g.badParen || g.badOrder, "the illegal token is at ", g.illegalPos, ", not at ", pos);
        else if (!g.unspecified && g.badParen && !g.badOrder) {
            if (g.closePos >= 0) REQUIRE(pos == g.closePos, "the surplus ) is at ", g.closePos, ", not at ", pos);
            else REQUIRE(std::count(g.openPos.begin(), g.openPos.end(), pos), "no unmatched ( at ", pos);
        }
        REQUIRE(w.find(block(t, pos)) != std::string::npos, "the message does not quote the text with a caret at ", pos, ": ", w);
        c.label("single parse error");
    } else if (x.is<ts::MultiParseError>()) {
        REQUIRE(w.find(t) != std::string::npos, "the message does not quote the text: ", w);
        c.label("multiple parse error");
    } else {
        REQUIRE(x.is<ts::MathError>(), "neither a parse error nor a math error: ", w);
        REQUIRE(x.kind() == (int)ts::ErrorType::ERROR_WRONG_EXPRESSION && starts(w, ts::GetErrorInfo(ts::ErrorType::ERROR_WRONG_EXPRESSION)), "kind ", x.kind(), ": ", w);
        c.label("wrong expression");
    }
    c.nontrivial = true;
}
// ---- errors as objects, names, solves ----
void object(Case &c) {
    Src &s = c.s;
    ts::ErrorType k = s.pick(kinds()), k2 = s.pick(kinds());
    std::string ext;
    for (int n = s.size(6, 300); n > 0; n--) ext += s.coin() ? (char)s.range(32, 126) : s.pick({'x', '"', '\n', '\xe4'});
    c.describe([&](std::ostream &q) { q << "MathError " << (int)k << " with \"" << ext << "\", other kind " << (int)k2; });
    c.key = std::to_string((int)k) + "/" + std::to_string((int)k2) + ext;
    std::string info = ts::GetErrorInfo(k);
    REQUIRE(!info.empty(), "no text for kind ", (int)k);
    REQUIRE(k == k2 || info != ts::GetErrorInfo(k2), "kinds ", (int)k, " and ", (int)k2, " have the same text");
    std::string want = ext.empty() ? info : info + ": \"" + ext + "\"";
    Caught x;
    {
        std::unique_ptr<ts::MathError> a(new ts::MathError(k, ext)), b(new ts::MathError(k2));
        REQUIRE(std::string(a->what()) == want && a->GetErrorType() == k, "what() is \"", a->what(), "\" instead of \"", want, "\"");
        ts::MathError copy(*a);
        *b = *a;
        a.reset();
        REQUIRE(std::string(b->what()) == want && b->GetErrorType() == k && std::string(copy.what()) == want && copy.GetErrorType() == k, "a copy of the error differs");
        x = catching([&] { throw *b; });
    }
    REQUIRE(x.what() == want && x.kind() == (int)k && x.is<std::runtime_error>(), "the thrown error differs");
    c.nontrivial = true;
    c.label("math error");
}
void names(Case &c) {
    Src &s = c.s;
    std::string n;
    for (int k = s.size(4, s.draw(8) == 7 ? 400 : 40); k > 0; k--) n += s.draw(4) ? s.pick({'a', 'x', '_', '1', 'Z'}) : (char)s.draw(256);
    c.describe([&](std::ostream &q) { q << "the name \"" << n << "\""; });
    c.key = n;
    bool legal = !n.empty() && !(n[0] >= '0' && n[0] <= '9');
    for (char ch : n) legal = legal && ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_');
    Caught x = catching([&] { ts::Var(n); });
    REQUIRE(!x.p == legal, "Var ", legal ? "rejects" : "accepts", " \"", n, "\"");
    if (!legal) REQUIRE(x.is<std::runtime_error>() && x.what().find(n.substr(0, n.find('\0'))) != std::string::npos, "the message \"", x.what(), "\" does not quote the name");
    Caught y;
    {
        ts::VarsTable t(std::map<std::string, double>{{"present_one", 1}, {"x2", 2}});
        y = catching([&] { t[n]; });
        REQUIRE(t["x2"] == 2, "lost a value");
    }
    if (n != "x2" && n != "present_one") REQUIRE(y.p && y.is<std::out_of_range>() && y.what().find(n.substr(0, n.find('\0'))) != std::string::npos, "looking up the absent name does not throw out_of_range quoting it");
    if (legal) { // an expression that still has a variable
        Caught z = catching([&] { (ts::Var(n) + ts::Num(1))->Vpa(); });
        REQUIRE(z.p && z.is<std::runtime_error>() && !z.is<ts::MathError>() && !z.what().empty(), "evaluating a variable");
    }
    c.nontrivial = !legal || n.size() > 1;
    c.label(legal ? "legal name" : "illegal name");
}
void solving(Case &c) { // affine systems that cannot be solved, from a point that is no solution: the kind is known
    Src &s = c.s;
    bool lm = s.coin();
    int cols = (int)s.range(1, 3), rows, style = (int)s.draw(lm ? 2 : 5);
    rows = style == 0 ? cols + (int)s.range(1, 2) : style == 1 ? cols + 1 : cols;
    if (style == 1) { cols = (int)s.range(2, 3); rows = (int)s.range(1, cols - 1); }
    if (style >= 2 && cols == 1) cols = rows = 2;
    if (style == 4) { cols = 3; rows = 2; }
    std::vector<std::vector<double>> A((size_t)rows, std::vector<double>((size_t)cols));
    std::vector<double> b((size_t)rows), x0((size_t)cols);
    for (int i = 0; i < rows; i++) {
        for (int j = 0; j < cols; j++) A[i][j] = i == j ? 4 : (double)s.range(-1, 1);
        b[i] = (double)s.range(-3, 3);
    }
    for (auto &v : x0) v = (double)s.range(-3, 3);
    if (style >= 2) { // the last row is a combination of the others; 2: consistent, 3: inconsistent, 4: inconsistent with fewer rows than columns
        std::fill(A[(size_t)rows - 1].begin(), A[(size_t)rows - 1].end(), 0.0);
        b[(size_t)rows - 1] = style >= 3 ? 1 : 0;
        for (int i = 0; i + 1 < rows; i++) {
            double k = (double)s.range(1, 2);
            for (int j = 0; j < cols; j++) A[(size_t)rows - 1][j] += k * A[i][j];
            b[(size_t)rows - 1] += k * b[i];
        }
    }
    bool root = true;
    std::vector<ts::Node> n;
    std::string text;
    static const char *const v[] = {"x", "y", "z"};
    ts::SymVec sys(rows);
    for (int i = 0; i < rows; i++) {
        double r = -b[i];
        ts::Node e = ts::Num(-b[i]);
        for (int j = 0; j < cols; j++) { r += A[i][j] * x0[j]; e += ts::Num(A[i][j]) * ts::Var(v[j]); }
        if (r != 0) root = false;
        sys[i] = std::move(e);
        text += sys[i]->ToString() + "; ";
    }
    if (root) throw Discard{};
    bool allow = s.draw(4) == 3;
    c.describe([&](std::ostream &q) { q << (lm ? "LM " : "NR ") << text << " style " << style << " allowIndeterminate=" << allow << " from"; for (double d : x0) q << " " << d; });
    c.key = text + std::to_string(lm);
    ts::Config::Get().allowIndeterminateEquation = allow;
    ts::Config::Get().nonlinearMethod = lm ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON;
    std::map<std::string, double> start;
    for (int j = 0; j < cols; j++) start[v[j]] = x0[j];
    bool byConfig = s.coin();
    Caught x = catching([&] { ts::VarsTable t(start); if (byConfig) ts::Solve(sys, t); else if (lm) ts::SolveByLM(sys, t); else ts::SolveByNewtonRaphson(sys, t); });
    ts::Config::Get().allowIndeterminateEquation = false;
    if (style == 1 && allow && !lm) { // solvable then
        REQUIRE(!x.p, "not solved although indeterminate equations are allowed: ", x.what());
        c.label("allowed indeterminate system");
        return;
    }
    ts::ErrorType want = style == 0 ? ts::ErrorType::ERROR_OVER_DETERMINED_EQUATIONS : style == 1 ? ts::ErrorType::ERROR_INDETERMINATE_EQUATION : style == 2 ? ts::ErrorType::ERROR_INFINITY_SOLUTIONS : ts::ErrorType::ERROR_SINGULAR_MATRIX;
    REQUIRE(x.p, "no exception");
    REQUIRE(x.kind() == (int)want, "kind ", x.kind(), " instead of ", (int)want, ": ", x.what());
    REQUIRE(starts(x.what(), ts::GetErrorInfo(want)), "the message is \"", x.what(), "\"");
    c.nontrivial = true;
    c.label("unsolvable system");
}
} // namespace

void property(Case &c) {
    resetConfig();
    switch (c.s.draw(8)) {
    case 0: case 1: invalidNumber(c); break;
    case 2: case 3: misplaced(c); break;
    case 4: anyFault(c); break;
    case 5: object(c); break;
    case 6: names(c); break;
    default: solving(c); break;
    }
}
