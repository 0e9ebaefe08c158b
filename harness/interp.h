// API scripts: a library-independent description of a sequence of public API calls. interp.inc executes
// one against whichever namespace the token `tomsolver` denotes and logs everything observable.
#pragma once
#include <string>
#include <vector>
namespace script {
enum Op {
    PARSE, NUM, VAR, UNARY, BINARY, COMPOUND, PRINT, VPA, CALC, SIMPLIFY, DIFF, SUBS_NUM, SUBS_NODE, SUBS_VEC, SUBS_TABLE, EQUAL, NAMES, CLONE, ASSIGN, // expressions
    CONFIG, RESET,
    MAT, MAT_BIN, MAT_UN, MAT_EDIT, MAT_NUMBER, LINEAR, VEC_BIN,                                                   // numeric matrices
    SYM_TEXTS, SYM_NODES, SYM_BIN, SYM_UN, SYM_SUBS, SYM_CALC, JACOBIAN, SYM_ENTRY,                                // symbolic matrices
    TABLE, TABLE_SET, TABLE_USE, SOLVE,
    TEXT_OF_NUMBER, MATH_OP, LEGAL, SEARCH,
    OPS
};
struct Instr {
    int op = 0, a = 0, b = 0, c = 0;
    double x = 0;
    std::vector<double> v;
    std::vector<std::string> t;
};
typedef std::vector<Instr> Script;
inline bool &fullText() { // log long texts whole, not cut
    static bool f = false;
    return f;
}
inline const char *name(int o) {
    static const char *n[] = {"Parse", "Num", "Var", "unary", "binary", "compound", "print", "Vpa", "Calc", "Simplify", "Diff", "Subs numbers", "Subs node", "Subs nodes", "Subs table", "Equal", "GetAllVarNames", "Clone", "assign",
        "Config", "Config.Reset", "Mat", "Mat binary", "Mat unary", "Mat edit", "Mat number", "SolveLinear", "Vec binary", "SymVec of texts", "SymMat of nodes", "SymMat binary", "SymMat unary",
        "SymMat.Subs", "SymMat.Calc", "Jacobian", "SymMat entry", "VarsTable", "VarsTable.SetValues", "VarsTable use", "Solve", "ToString(number)", "math operator", "VarNameIsLegal", "line search"};
    return n[o];
}
inline std::string show(const Script &s) {
    std::string o;
    for (auto &i : s) {
        o += std::string(name(i.op)) + " " + std::to_string(i.a) + " " + std::to_string(i.b) + " " + std::to_string(i.c);
        char b[40];
        if (i.x != 0) { snprintf(b, sizeof b, " x=%.17g", i.x); o += b; }
        for (double d : i.v) { snprintf(b, sizeof b, " %.17g", d); o += b; }
        for (auto &t : i.t) o += " \"" + t + "\"";
        o += "\n";
    }
    return o;
}
} // namespace script
