// Reference model: expressions, evaluation, derivatives, text. Independent of the library.
#pragma once
#include "pbt.h"
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace model {

enum class Op {
    NUM, VAR,
    POS, NEG, SIN, COS, TAN, ASIN, ACOS, ATAN, SQRT, LOG, LOG2, LOG10, EXP,
    ADD, SUB, MUL, DIV, POW, AND, OR, MOD
};
inline bool isFunc(Op o) { return o >= Op::SIN && o <= Op::EXP; }
inline bool isUnary(Op o) { return o >= Op::POS && o <= Op::EXP; }
inline bool isBinary(Op o) { return o >= Op::ADD; }
inline bool isBitOp(Op o) { return o >= Op::AND; }

struct Expr;
using E = std::shared_ptr<const Expr>;
struct Expr {
    Op op;
    double v = 0;
    std::string name;
    E l, r;
};
E num(double v);
E var(const std::string &n);
E un(Op o, E a);
E bin(Op o, E a, E b);

int size(const E &e);
int depth(const E &e);
void vars(const E &e, std::set<std::string> &out);
std::set<std::string> vars(const E &e);
bool contains(const E &e, const std::string &var);
bool containsOp(const E &e, Op o);
bool containsBitOp(const E &e);
bool same(const E &a, const E &b); // structural equality, numbers by ==
std::string show(const E &e);      // unambiguous prefix text with %.17g numbers
E subst(const E &e, const std::map<std::string, E> &m);

typedef std::map<std::string, double> Env;

// the C library / IEEE result of one operation; % & | on truncated ints, NaN when undefined
double apply(Op o, double a, double b);

struct Eval {
    double v = 0;
    bool invalid = false;      // some operation gave inf or nan
    bool zeroPowZero = false;  // a power with base 0 and exponent 0
    bool unbound = false;
    bool negZero = false;      // some intermediate is -0.0
    double maxAbs = 0, minAbs = INFINITY; // over finite non-zero intermediates
};
Eval eval(const E &e, const Env &env);

// value with a bound on the rounding error of evaluating it in double with any regrouping of
// + - and * / chains and with literals perturbed by litAbs (for |literal| < 1)
struct Bounded {
    long double v = 0, err = 0, mass = 0, relmass = 0;
    int terms = 1, factors = 1;
    bool ok = true; // false: outside the region where the bound is trustworthy
};
Bounded evalBounded(const E &e, const Env &env, long double litAbs);

// Jets: coefficients of products of up to M nilpotent generators
struct Jet {
    std::vector<long double> c; // 2^m
};
// Value and mixed partials: dirs[i] is the variable generator i perturbs. Returns c[mask].
// mass: the same with absolute values (an upper bound for the sum of the magnitudes of all terms)
struct JetResult {
    bool ok = false;
    std::vector<long double> c, mass;
};
JetResult jets(const E &e, const Env &env, const std::vector<std::string> &dirs);

// ---- generation ----
struct GenOpts {
    std::vector<std::string> vars;
    int maxSize = 20;          // number of operators
    bool bitOps = false;
    bool functions = true;
    bool power = true;
    bool negativeNumbers = true; // negative literal nodes (API only; text has unary minus)
    bool unarySigns = true;
    int numStyle = 0;          // 0 small "nice" numbers, 1 moderate reals, 2 any finite incl. extremes
    bool tame = false;         // prefer combinations that stay in domain (derivatives)
};
double genNumber(pbt::Src &s, int style);
E genExpr(pbt::Src &s, const GenOpts &o, int ops);
E genExpr(pbt::Src &s, const GenOpts &o); // size drawn
std::string genName(pbt::Src &s); // legal, not reserved
std::string genNameLike(pbt::Src &s, const std::string &w); // legal, not reserved, a small edit of w
E nearMiss(pbt::Src &s, const E &e); // e with one random node changed: another expression, which may print alike or have the same value
int bigCount(pbt::Src &s); // around the limits of small integer types
bool reservedName(const std::string &n);
Env genEnv(pbt::Src &s, const std::set<std::string> &names, int style);
std::string showEnv(const Env &e);

// ---- text ----
// random but well-formed text whose grammar meaning is e (no negative literals inside e)
std::string genText(pbt::Src &s, const E &e);
std::string numText(pbt::Src &s, double v, bool plain);

// ---- recogniser (specification of the accepted language) ----
struct Syntax {
    bool ok = false;
    bool unspecified = false; // contains a token the property does not speak about (hex, inf, nan, over- or underflowing literal)
    bool illegalToken = false, badParen = false, badOrder = false, blank = false;
    int illegalPos = -1, closePos = -1;
    std::vector<int> openPos;
};
Syntax recognise(const std::string &text);

std::string fmt(double v);
bool sameBits(double a, double b);
bool sameValue(double a, double b); // equal, or both NaN (sign of zero ignored)
} // namespace model
