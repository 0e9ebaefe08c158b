// Exact integer linear algebra for the matrix properties.
#pragma once
#include <string>
#include <vector>
namespace exact {
typedef __int128 I;
typedef std::vector<std::vector<I>> IM;
// fraction-free elimination; returns the rank, and the determinant of a square matrix in *det
inline int bareiss(IM m, I *det = nullptr) {
    int r = (int)m.size(), c = r ? (int)m[0].size() : 0, rank = 0, sign = 1;
    I prev = 1;
    for (int col = 0; col < c && rank < r; col++) {
        int p = rank;
        while (p < r && m[p][col] == 0) p++;
        if (p == r) continue;
        if (p != rank) { std::swap(m[p], m[rank]); sign = -sign; }
        for (int i = rank + 1; i < r; i++) {
            for (int j = col + 1; j < c; j++) m[i][j] = (m[i][j] * m[rank][col] - m[i][col] * m[rank][j]) / prev;
            m[i][col] = 0;
        }
        prev = m[rank][col];
        rank++;
    }
    if (det) *det = rank == r && r == c ? sign * prev : 0;
    return rank;
}
inline I det(const IM &m) { I d = 1; if (m.empty()) return 1; bareiss(m, &d); return d; }
inline IM minorOf(const IM &m, int p, int q, int n) {
    IM r;
    for (int i = 0; i < n; i++) {
        if (i == p) continue;
        r.emplace_back();
        for (int j = 0; j < n; j++) if (j != q) r.back().push_back(m[i][j]);
    }
    return r;
}
inline IM block(const IM &m, int n) {
    IM r(m.begin(), m.begin() + n);
    for (auto &x : r) x.resize((size_t)n);
    return r;
}
inline std::string show(const IM &m) {
    std::string o = "[";
    for (size_t i = 0; i < m.size(); i++) {
        if (i) o += "; ";
        for (size_t j = 0; j < m[i].size(); j++) o += (j ? " " : "") + std::to_string((long long)m[i][j]);
    }
    return o + "]";
}
} // namespace exact
