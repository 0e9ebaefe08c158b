// Included with INTERP_NS defined; runs scripts against namespace `tomsolver` (possibly renamed by a macro).
#include "interp.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
namespace INTERP_NS {
namespace ts = tomsolver;
using namespace script;
using ts::operator+;
using ts::operator-;
using ts::operator*;
using ts::operator/;
using ts::operator^;
using ts::operator+=;
using ts::operator-=;
using ts::operator*=;
using ts::operator/=;
using ts::operator^=;

struct Interp {
    std::vector<ts::Node> nodes;
    std::vector<ts::Mat> mats;
    std::vector<ts::SymMat> syms;
    std::vector<ts::VarsTable> tables;
    std::vector<std::string> log;
    bool keepConfig = false; // ignore CONFIG and RESET (the caller has chosen the configuration)
    bool ownOutput = true;   // hide what is printed (false where several threads run scripts)
    ts::Config shadow = ts::Config::Get();

    static std::string num(double v) {
        if (v != v) return "nan";
        if (v == 0) return "0"; // the sign of zero is not compared
        char b[64];
        snprintf(b, sizeof b, "%a", v);
        return b;
    }
    static std::string cut(std::string s) {
        for (size_t p = 0; (p = s.find("-nan", p)) != std::string::npos;) s.erase(p, 1); // nor the sign of NaN
        if (s.size() < 600 || fullText()) return s;
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        return s.substr(0, 500) + "...#" + std::to_string(s.size()) + "#" + std::to_string(h);
    }
    static std::string text(const ts::Node &n) {
        std::ostringstream o;
        o << n;
        std::string t = n->ToString(), bits;
        if (n->GetAllVarNames().empty()) { // the text does not show every bit of a number
            try { bits = " = " + num(n->Vpa()); } catch (const std::exception &) { bits = " invalid"; }
        }
        return cut(t) + bits + (o.str() == t ? "" : " STREAM " + o.str());
    }
    static std::string text(const ts::Mat &m) {
        std::string o = std::to_string(m.Rows()) + "x" + std::to_string(m.Cols());
        for (int i = 0; i < m.Rows(); i++) for (int j = 0; j < m.Cols(); j++) o += " " + num(m.Value(i, j));
        std::ostringstream q;
        q << m;
        return cut(o + "|" + m.ToString() + (q.str() == m.ToString() ? "" : "STREAM" + q.str()));
    }
    static std::string text(const ts::SymMat &m) {
        std::string o = std::to_string(m.Rows()) + "x" + std::to_string(m.Cols());
        for (int i = 0; i < m.Rows(); i++) for (int j = 0; j < m.Cols(); j++) o += " ; " + m.Value(i, j)->ToString();
        return cut(o + "|" + m.ToString());
    }
    static std::string text(const ts::VarsTable &t) {
        std::string o = std::to_string(t.VarNums());
        for (auto &n : t.Vars()) o += " " + n;
        for (auto &v : t) o += " " + v.first + "=" + num(v.second);
        return cut(o + text(t.Values()) + t.ToString());
    }
    template <class T> typename T::value_type &at(T &c, int i) { return c[(size_t)((unsigned)i % c.size())]; }
    static ts::MathOperator uop(int i) { return (ts::MathOperator)((int)ts::MathOperator::MATH_POSITIVE + (unsigned)i % 13); }
    void put(ts::Node n, std::string &out) {
        out += text(n);
        if (nodes.size() < 12) nodes.push_back(std::move(n));
        else nodes[log.size() % 12] = std::move(n);
    }
    void put(ts::Mat m, std::string &out) {
        out += text(m);
        if (mats.size() < 8) mats.push_back(std::move(m));
        else mats[log.size() % 8] = std::move(m);
    }
    void put(ts::SymMat m, std::string &out) {
        out += text(m);
        if (syms.size() < 8) syms.push_back(std::move(m));
        else syms[log.size() % 8] = std::move(m);
    }
    void put(ts::VarsTable m, std::string &out) {
        out += text(m);
        if (tables.size() < 6) tables.push_back(std::move(m));
        else tables[log.size() % 6] = std::move(m);
    }
    static bool legal(const std::string &s) { return ts::VarNameIsLegal(s); }
    static size_t bulk(const ts::Node &n) { return n->ToString().size(); }
    static size_t bulk(const ts::SymMat &m) {
        size_t t = 0;
        for (int i = 0; i < m.Rows(); i++) for (int j = 0; j < m.Cols(); j++) t += bulk(m.Value(i, j));
        return t;
    }
    static ts::Mat column(const std::vector<double> &v) {
        ts::Mat m((int)v.size(), 1);
        for (size_t i = 0; i < v.size(); i++) m.Value((int)i, 0) = v[i];
        return m;
    }
    static bool isVec(const ts::Mat &m) { return m.Cols() == 1; }

    void step(const Instr &i, std::string &out) {
        ts::Config &cfg = ts::Config::Get();
        switch (i.op) {
        case PARSE: if (i.t.empty()) return; put(ts::Parse(i.t[0]), out); return;
        case NUM: put(ts::Num(i.x), out); return;
        case VAR: if (i.t.empty()) return; put(ts::Var(i.t[0]), out); return;
        case TEXT_OF_NUMBER: out += ts::ToString(i.x); return;
        case LEGAL: if (i.t.empty()) return; out += ts::VarNameIsLegal(i.t[0]) ? "legal" : "illegal"; return;
        case MATH_OP: {
            ts::MathOperator o = (ts::MathOperator)((unsigned)i.a % ((unsigned)ts::MathOperator::MATH_MOD + 1));
            if (o == ts::MathOperator::MATH_NULL) return;
            out += ts::MathOperatorToStr(o) + " " + std::to_string(ts::GetOperatorNum(o)) + " " + std::to_string(ts::Rank(o)) + " " + std::to_string(ts::IsLeft2Right(o)) + std::to_string(ts::InAssociativeLaws(o)) +
                   std::to_string(ts::IsFunction(o)) + " " + num(ts::Calc(o, i.x, i.v.empty() ? 0 : i.v[0]));
            return;
        }
        case CONFIG:
            if (keepConfig) return;
            switch ((unsigned)i.a % 7) {
            case 0: cfg.throwOnInvalidValue = i.b & 1; break;
            case 1: cfg.epsilon = std::fabs(i.x); break;
            case 2: cfg.logLevel = (ts::LogLevel)((unsigned)i.b % 8); break;
            case 3: cfg.maxIterations = (int)((unsigned)i.b % 40); break;
            case 4: cfg.nonlinearMethod = i.b & 1 ? ts::NonlinearMethod::LM : ts::NonlinearMethod::NEWTON_RAPHSON; break;
            case 5: cfg.initialValue = i.x; break;
            default: cfg.allowIndeterminateEquation = i.b & 1; break;
            }
            shadow = cfg;
            return;
        case RESET:
            if (keepConfig) return;
            cfg.Reset();
            out += std::to_string(cfg.throwOnInvalidValue) + num(cfg.epsilon) + std::to_string((int)cfg.logLevel) + " " + std::to_string(cfg.maxIterations) + std::to_string((int)cfg.nonlinearMethod) + num(cfg.initialValue) + std::to_string(cfg.allowIndeterminateEquation);
            shadow = cfg;
            return;
        case MAT: {
            int r = 1 + (int)((unsigned)i.a % 5), c = 1 + (int)((unsigned)i.b % 5);
            ts::Mat m(r, c, i.x);
            for (size_t k = 0; k < i.v.size() && k < (size_t)(r * c); k++) m.Value((int)k / c, (int)k % c) = i.v[k];
            put(std::move(m), out);
            return;
        }
        case TABLE: {
            if (i.t.empty() || i.v.size() < i.t.size()) return;
            std::map<std::string, double> m;
            std::vector<std::string> names;
            for (size_t k = 0; k < i.t.size(); k++) if (m.emplace(i.t[k], i.v[k]).second) names.push_back(i.t[k]);
            if (i.a & 1) put(ts::VarsTable(m), out);
            else put(ts::VarsTable(names, i.x), out);
            return;
        }
        case SYM_TEXTS: {
            std::vector<ts::Node> n;
            for (auto &t : i.t) n.push_back(ts::Parse(t));
            if (n.empty()) return;
            ts::SymVec v((int)n.size());
            for (size_t k = 0; k < n.size(); k++) v[k] = std::move(n[k]);
            put(std::move(v), out);
            return;
        }
        default: break;
        }
        if (i.op <= ASSIGN && i.op != PARSE) {
            if (nodes.empty()) { out += "none"; return; }
            ts::Node &n = at(nodes, i.a), &m = at(nodes, i.b);
            size_t s = bulk(n) + bulk(m);
            switch (i.op) {
            case UNARY: if (s < 1500) put(i.c & 1 ? ts::internal::UnaryOperator(uop(i.c >> 1), ts::Clone(n)) : fun(i.c >> 1, n), out); return;
            case BINARY: {
                if (s > 1500) return;
                switch ((unsigned)i.c % 10) {
                case 0: put(n + m, out); return;
                case 1: put(n - m, out); return;
                case 2: put(n * m, out); return;
                case 3: put(n / m, out); return;
                case 4: put(n ^ m, out); return;
                case 5: put(ts::Clone(n) + m, out); return;
                case 6: put(n * ts::Clone(m), out); return;
                case 7: put(ts::Clone(n) / ts::Clone(m), out); return;
                case 8: put(-n - m, out); return;
                default: put(ts::internal::Operator((ts::MathOperator)((int)ts::MathOperator::MATH_AND + (unsigned)i.b % 3), ts::Clone(n), ts::Clone(m)), out); return;
                }
            }
            case COMPOUND:
                if (s > 1500) return;
                switch ((unsigned)i.c % 6) {
                case 0: n += m; break;
                case 1: n -= m; break;
                case 2: n *= m; break;
                case 3: n /= ts::Clone(m); break;
                case 4: n ^= m; break;
                default: n += ts::Clone(m); break;
                }
                out += text(n);
                return;
            case PRINT: out += text(n); return;
            case VPA: out += num(n->Vpa()); return;
            case CALC: n->Calc(); out += text(n); return;
            case SIMPLIFY: { ts::Node k = ts::Clone(n); ts::Simplify(k); put(std::move(k), out); return; }
            case DIFF: {
                int order = 1 + (int)((unsigned)i.c % 2);
                if (i.t.empty() || bulk(n) > (order == 1 ? 400u : 60u)) return;
                put(i.c & 4 ? ts::Diff(ts::Clone(n), i.t[0], order) : ts::Diff(n, i.t[0], order), out);
                return;
            }
            case SUBS_NUM: {
                std::map<std::string, double> m2;
                for (size_t k = 0; k < i.t.size() && k < i.v.size(); k++) m2[i.t[k]] = i.v[k];
                put(i.c & 1 ? ts::Subs(ts::Clone(n), m2) : ts::Subs(n, m2), out);
                return;
            }
            case SUBS_NODE: if (i.t.empty() || s > 200) return; put(ts::Subs(n, i.t[0], m), out); return;
            case SUBS_VEC: {
                if (i.t.size() < 2 || i.t[0] == i.t[1] || s > 200) return;
                ts::SymVec v(2);
                v[0] = ts::Clone(m);
                v[1] = ts::Clone(n);
                put(ts::Subs(n, std::vector<std::string>{i.t[0], i.t[1]}, v), out);
                return;
            }
            case SUBS_TABLE: if (tables.empty()) return; put(ts::Subs(n, at(tables, i.c)), out); return;
            case EQUAL: out += n->Equal(m) ? "equal" : "different"; return;
            case NAMES: for (auto &q : n->GetAllVarNames()) out += q + " "; return;
            case CLONE: put(ts::Clone(n), out); return;
            case ASSIGN: if (&n != &m) { *n = *m; out += text(n); } return;
            default: return;
            }
        }
        if (i.op >= MAT && i.op <= VEC_BIN) {
            if (mats.empty()) { out += "none"; return; }
            ts::Mat &p = at(mats, i.a), &q = at(mats, i.b);
            bool same = p.Rows() == q.Rows() && p.Cols() == q.Cols(), square = p.Rows() == p.Cols();
            switch (i.op) {
            case MAT_BIN:
                switch ((unsigned)i.c % 8) {
                case 0: if (same) put(p + q, out); return;
                case 1: if (same) put(p - q, out); return;
                case 2: if (p.Cols() == q.Rows()) put(p * q, out); return;
                case 3: if (same) put(ts::EachDivide(p, q), out); return;
                case 4: if (same) { p += q; out += text(p); } return;
                case 5: if (same) out += std::to_string(p == q) + std::to_string(ts::AllIsLessThan(p, q)); return;
                case 6: put(p * i.x, out); return;
                default: put(i.x * p, out); return;
                }
            case MAT_UN:
                switch ((unsigned)i.c % 5) {
                case 0: put(p.Transpose(), out); return;
                case 1: put(-p, out); return;
                case 2: if (square) put(p.Inverse(), out); return;
                case 3: if (square) { ts::Mat a(p.Rows(), p.Cols()); ts::Adjoint(p, a); put(a, out); } return;
                default: put(p.ToVec(), out); return;
                }
            case MAT_EDIT:
                switch ((unsigned)i.c % 6) {
                case 0: p.Resize(1 + (int)((unsigned)i.b % 5), 1 + (int)((unsigned)(i.b / 5) % 5)); break;
                case 1: p.SwapRow((int)((unsigned)i.b % (unsigned)p.Rows()), (int)((unsigned)(i.b / 7) % (unsigned)p.Rows())); break;
                case 2: p.SwapCol((int)((unsigned)i.b % (unsigned)p.Cols()), (int)((unsigned)(i.b / 7) % (unsigned)p.Cols())); break;
                case 3: if (square) p.Ones(); else p.Zero(); break;
                case 4: p.SetValue(i.x); break;
                default: p.Value((int)((unsigned)i.b % (unsigned)p.Rows()), (int)((unsigned)(i.b / 7) % (unsigned)p.Cols())) = i.x; break;
                }
                out += text(p);
                return;
            case MAT_NUMBER:
                out += num(p.Norm2()) + " " + num(p.NormInfinity()) + " " + num(p.NormNegInfinity()) + " " + num(p.Min()) + " " + std::to_string(ts::IsZero(p)) + std::to_string(p == i.x);
                if (square) out += " " + num(ts::Det(p, p.Rows())) + " " + std::to_string(p.PositiveDetermine());
                out += " " + std::to_string(ts::GetMaxAbsRowIndex(p, 0, p.Rows() - 1, (int)((unsigned)i.b % (unsigned)p.Cols())));
                return;
            case LINEAR: if (q.Rows() == p.Rows() && isVec(q)) put(ts::SolveLinear(p, q.ToVec()), out);
                else if (!i.v.empty()) { std::vector<double> b; for (int k = 0; k < p.Rows(); k++) b.push_back(i.v[(size_t)k % i.v.size()]); put(ts::SolveLinear(p, column(b).ToVec()), out); }
                return;
            case VEC_BIN: {
                if (!isVec(p) || !isVec(q) || !same) return;
                ts::Vec a = p.ToVec(), b = q.ToVec();
                switch ((unsigned)i.c % 7) {
                case 0: put(a + b, out); return;
                case 1: put(a - b, out); return;
                case 2: put(a * b, out); return;
                case 3: put(a / b, out); return;
                case 4: out += num(ts::Dot(a, b)) + " " + std::to_string(a < b); return;
                case 5: put(-a, out); return;
                default: put(i.x * a, out); return;
                }
            }
            default: return;
            }
        }
        if (i.op == SYM_NODES) {
            if (nodes.empty()) return;
            int r = 1 + (int)((unsigned)i.a % 3), c = 1 + (int)((unsigned)i.b % 3);
            ts::SymMat m(r, c);
            for (int k = 0; k < r * c; k++) m.Value(k / c, k % c) = ts::Clone(at(nodes, i.c + k));
            if (bulk(m) < 4000) put(std::move(m), out);
            return;
        }
        if (i.op >= SYM_BIN && i.op <= SYM_ENTRY) {
            if (syms.empty()) { out += "none"; return; }
            ts::SymMat &p = at(syms, i.a), &q = at(syms, i.b);
            bool same = p.Rows() == q.Rows() && p.Cols() == q.Cols();
            size_t s = bulk(p) + bulk(q);
            switch (i.op) {
            case SYM_BIN: if (s > 2000) return;
                switch ((unsigned)i.c % 3) {
                case 0: if (same) put(p - q, out); return;
                case 1: put(p * q, out); return;
                default: out += std::to_string(p == q); return;
                }
            case SYM_UN:
                switch ((unsigned)i.c % 6) {
                case 0: put(p.Clone(), out); return;
                case 1: put(p.ToSymVec(), out); return;
                case 2: put(p.ToSymVecOneByOne(), out); return;
                case 3: put(p.ToMat(), out); return;
                case 4: for (auto &n : p.GetAllVarNames()) out += n + " "; return;
                default: if (!mats.empty()) put(ts::SymMat(at(mats, i.b)), out); return;
                }
            case SYM_SUBS: {
                if (i.c & 1 && !tables.empty()) p.Subs(at(tables, i.b));
                else {
                    std::map<std::string, double> m;
                    for (size_t k = 0; k < i.t.size() && k < i.v.size(); k++) m[i.t[k]] = i.v[k];
                    p.Subs(m);
                }
                out += text(p);
                return;
            }
            case SYM_CALC: { ts::SymMat k = p.Clone(); k.Calc(); put(std::move(k), out); return; }
            case JACOBIAN: if (s > 800 || i.t.empty() || p.Cols() != 1) return; put(ts::Jacobian(p, i.t), out); return;
            case SYM_ENTRY: put(ts::Clone(p.Value((int)((unsigned)i.b % (unsigned)p.Rows()), (int)((unsigned)i.c % (unsigned)p.Cols()))), out); return;
            default: return;
            }
        }
        if (i.op == TABLE_SET || i.op == TABLE_USE) {
            if (tables.empty()) { out += "none"; return; }
            ts::VarsTable &p = at(tables, i.a), &q = at(tables, i.b);
            if (i.op == TABLE_SET) {
                ts::Vec v(p.VarNums(), i.x);
                for (size_t k = 0; k < i.v.size() && k < (size_t)p.VarNums(); k++) v[k] = i.v[k];
                p.SetValues(v);
                out += text(p);
                return;
            }
            out += std::to_string(p == q);
            if (!i.t.empty()) out += std::to_string(p.Has(i.t[0])) + num(p[i.t[0]]);
            return;
        }
        if (i.op == SOLVE) {
            if (syms.empty()) { out += "none"; return; }
            ts::SymMat &p = at(syms, i.a);
            if (p.Cols() != 1 || bulk(p) > 400) return;
            ts::SymVec eq = p.ToSymVec();
            if (eq.GetAllVarNames().empty()) return;
            bool lm = (unsigned)i.c % 4 == 1 || ((unsigned)i.c % 4 > 1 && cfg.nonlinearMethod == ts::NonlinearMethod::LM);
            if (lm && cfg.maxIterations > 6) { out += "not tried"; return; } // a failing line search is slow
            if ((unsigned)i.c % 4 != 3 && tables.empty()) return;
            switch ((unsigned)i.c % 4) {
            case 0: put(ts::SolveByNewtonRaphson(eq, at(tables, i.b)), out); return;
            case 1: put(ts::SolveByLM(eq, at(tables, i.b)), out); return;
            case 2: put(ts::Solve(eq, at(tables, i.b)), out); return;
            default: put(ts::Solve(eq), out); return;
            }
        }
        if (i.op == SEARCH) {
            ts::Vec x(2, i.x), d(2, 1.0);
            if (i.v.size() >= 4) { x[0] = i.v[0]; x[1] = i.v[1]; d[0] = i.v[2]; d[1] = i.v[3]; }
            auto f = [&](ts::Vec v) { ts::Vec r(2); r[0] = v[0] * v[0] - v[1]; r[1] = v[1] * i.x + std::sin(v[0]); return r; };
            auto df = [&](ts::Vec v) { ts::Mat r(2, 2); r.Value(0, 0) = 2 * v[0]; r.Value(0, 1) = -1; r.Value(1, 0) = std::cos(v[0]); r.Value(1, 1) = i.x; return r; };
            out += i.c & 1 ? num(ts::Armijo(x, d, f, df)) : num(ts::FindAlpha(x, d, f));
            return;
        }
    }
    static ts::Node fun(int k, const ts::Node &n) {
        switch ((unsigned)k % 13) {
        case 0: return +n;
        case 1: return -n;
        case 2: return ts::sin(n);
        case 3: return ts::cos(n);
        case 4: return ts::tan(n);
        case 5: return ts::asin(n);
        case 6: return ts::acos(n);
        case 7: return ts::atan(n);
        case 8: return ts::sqrt(n);
        case 9: return ts::log(n);
        case 10: return ts::log2(n);
        case 11: return ts::log10(n);
        default: return ts::exp(n);
        }
    }
    void one(const Instr &i) {
        std::string out = std::string(name(i.op)) + ": ";
        try { step(i, out); }
        catch (const ts::MathError &e) { out += "!MathError " + std::to_string((int)e.GetErrorType()) + " " + cut(e.what()); }
        catch (const ts::SingleParseError &e) { out += "!SingleParseError " + std::to_string(e.GetLine()) + "," + std::to_string(e.GetPos()) + " " + cut(e.what()); }
        catch (const ts::MultiParseError &e) { out += std::string("!MultiParseError ") + cut(e.what()); }
        catch (const ts::ParseError &e) { out += std::string("!ParseError ") + cut(e.what()); }
        catch (const std::out_of_range &e) { out += std::string("!out_of_range ") + cut(e.what()); }
        catch (const std::runtime_error &e) { out += std::string("!runtime_error ") + cut(e.what()); }
        catch (const std::exception &e) { out += std::string("!exception ") + cut(e.what()); }
        const ts::Config &c = ts::Config::Get();
        if (c.throwOnInvalidValue != shadow.throwOnInvalidValue || c.epsilon != shadow.epsilon || c.logLevel != shadow.logLevel || c.maxIterations != shadow.maxIterations || c.nonlinearMethod != shadow.nonlinearMethod ||
            c.initialValue != shadow.initialValue || c.allowIndeterminateEquation != shadow.allowIndeterminateEquation)
            out += " CONFIGURATION CHANGED";
        log.push_back(out);
    }
    void run(const Script &s) {
        std::ostringstream sink; // what the log levels print
        struct Swap {
            std::streambuf *b;
            ~Swap() { if (b != std::cout.rdbuf()) std::cout.rdbuf(b); }
        } back{ownOutput ? std::cout.rdbuf(sink.rdbuf()) : std::cout.rdbuf()};
        shadow = ts::Config::Get();
        for (auto &i : s) one(i);
    }
};
} // namespace INTERP_NS
