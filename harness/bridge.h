// Reference-model trees to library trees, through the public API only.
#pragma once
#include "model.h"
#include "pbt.h"
#include <tomsolver/tomsolver.h>
#if __has_include(<tomsolver/error_type.h>)
#include <tomsolver/error_type.h>
#endif

namespace bridge {
namespace ts = tomsolver;
using model::E;
using model::Op;
using ts::MathOperator;
using ts::operator+;
using ts::operator-;
using ts::operator*;
using ts::operator/;
using ts::operator^;
using ts::operator+=;
using ts::operator-=;
using ts::operator*=;
using ts::operator/=;
using ts::operator^=;

inline MathOperator mop(Op o) {
    static const MathOperator t[] = {
        MathOperator::MATH_NULL, MathOperator::MATH_NULL, MathOperator::MATH_POSITIVE, MathOperator::MATH_NEGATIVE, MathOperator::MATH_SIN,
        MathOperator::MATH_COS, MathOperator::MATH_TAN, MathOperator::MATH_ARCSIN, MathOperator::MATH_ARCCOS, MathOperator::MATH_ARCTAN,
        MathOperator::MATH_SQRT, MathOperator::MATH_LOG, MathOperator::MATH_LOG2, MathOperator::MATH_LOG10, MathOperator::MATH_EXP,
        MathOperator::MATH_ADD, MathOperator::MATH_SUB, MathOperator::MATH_MULTIPLY, MathOperator::MATH_DIVIDE, MathOperator::MATH_POWER,
        MathOperator::MATH_AND, MathOperator::MATH_OR, MathOperator::MATH_MOD};
    return t[(int)o];
}

template <class T> ts::Node unary(Op o, T &&a) {
    switch (o) {
    case Op::POS: return +std::forward<T>(a);
    case Op::NEG: return -std::forward<T>(a);
    case Op::SIN: return ts::sin(std::forward<T>(a));
    case Op::COS: return ts::cos(std::forward<T>(a));
    case Op::TAN: return ts::tan(std::forward<T>(a));
    case Op::ASIN: return ts::asin(std::forward<T>(a));
    case Op::ACOS: return ts::acos(std::forward<T>(a));
    case Op::ATAN: return ts::atan(std::forward<T>(a));
    case Op::SQRT: return ts::sqrt(std::forward<T>(a));
    case Op::LOG: return ts::log(std::forward<T>(a));
    case Op::LOG2: return ts::log2(std::forward<T>(a));
    case Op::LOG10: return ts::log10(std::forward<T>(a));
    default: return ts::exp(std::forward<T>(a));
    }
}
inline ts::Node take(ts::Node &&n) { return std::move(n); }
inline ts::Node take(const ts::Node &n) { return ts::Clone(n); }
template <class T, class U> ts::Node binary(Op o, T &&a, U &&b) {
    switch (o) {
    case Op::ADD: return std::forward<T>(a) + std::forward<U>(b);
    case Op::SUB: return std::forward<T>(a) - std::forward<U>(b);
    case Op::MUL: return std::forward<T>(a) * std::forward<U>(b);
    case Op::DIV: return std::forward<T>(a) / std::forward<U>(b);
    case Op::POW: return std::forward<T>(a) ^ std::forward<U>(b);
    default: { // & | % have no operator overload
        ts::Node x = take(std::forward<T>(a)), y = take(std::forward<U>(b));
        return ts::internal::Operator(mop(o), std::move(x), std::move(y));
    }
    }
}
template <class U> void compound(Op o, ts::Node &a, U &&b) {
    switch (o) {
    case Op::ADD: a += std::forward<U>(b); break;
    case Op::SUB: a -= std::forward<U>(b); break;
    case Op::MUL: a *= std::forward<U>(b); break;
    case Op::DIV: a /= std::forward<U>(b); break;
    default: a ^= std::forward<U>(b); break;
    }
}
// is the operator one with a compound assignment?
inline bool hasCompound(Op o) { return o >= Op::ADD && o <= Op::POW; }

// Builds the tree of e. Without s every operand is moved; with s operands are randomly lvalues
// (copied) or rvalues (moved), and compound assignment is used now and then.
inline ts::Node toNode(const E &e, pbt::Src *s = nullptr) {
    switch (e->op) {
    case Op::NUM: return ts::Num(e->v);
    case Op::VAR: return ts::Var(e->name);
    default: break;
    }
    int style = s ? (int)s->draw(6) : 0;
    ts::Node a = toNode(e->l, s);
    if (!e->r) return style & 1 ? unary(e->op, a) : unary(e->op, std::move(a));
    ts::Node b = toNode(e->r, s);
    switch (style) {
    case 1: return binary(e->op, a, std::move(b));
    case 2: return binary(e->op, std::move(a), b);
    case 3: return binary(e->op, a, b);
    case 4: if (hasCompound(e->op)) { compound(e->op, a, std::move(b)); return a; } break;
    case 5: if (hasCompound(e->op)) { compound(e->op, a, b); return a; } break;
    default: break;
    }
    return binary(e->op, std::move(a), std::move(b));
}

inline void resetConfig() {
    ts::Config &c = ts::Config::Get();
    c.throwOnInvalidValue = true;
    c.epsilon = 1.0e-9;
    c.logLevel = ts::LogLevel::WARN;
    c.maxIterations = 100;
    c.nonlinearMethod = ts::NonlinearMethod::NEWTON_RAPHSON;
    c.initialValue = 1.0;
    c.allowIndeterminateEquation = false;
}
struct Policy { // throwOnInvalidValue for a scope
    bool old;
    explicit Policy(bool on) : old(ts::Config::Get().throwOnInvalidValue) { ts::Config::Get().throwOnInvalidValue = on; }
    ~Policy() { ts::Config::Get().throwOnInvalidValue = old; }
};

// Value of n at env with the throwing policy off; fails the case when variables remain.
inline double valueAt(const ts::Node &n, const model::Env &env) {
    Policy p(false);
    std::map<std::string, double> m(env.begin(), env.end());
    return ts::Subs(n, m)->Vpa();
}
inline bool sameNode(const ts::Node &n, const E &e) { return n->Equal(toNode(e)); }
} // namespace bridge
