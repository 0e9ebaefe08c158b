// A small choice-sequence property-based testing engine.
// Every generated value is decoded from a sequence of integer choices; a case is reproduced and
// shrunk by editing that sequence, so shrinking needs no per-type code.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};
struct Discard {};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

// When set, every draw is also written here (shared memory), so that a crashing case leaves its choices behind.
inline uint64_t *gTap = nullptr;
inline size_t gTapCap = 0;

class Src {
public:
    explicit Src(uint64_t seed) : state(seed), random(true) {}
    explicit Src(std::vector<uint64_t> given) : random(false), given(std::move(given)) {}
    // libFuzzer: choices decoded from bytes
    Src(const uint8_t *p, size_t n) : random(false), bytes(p), nbytes(n) {}

    // uniform in [0, n); n == 0 means 64 random bits. 0 is always the simplest choice.
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (random) {
            state += 0x9e3779b97f4a7c15ull;
            v = mix(state);
            if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        } else if (bytes) {
            int k = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
            v = 0;
            for (int i = 0; i < k && pos < nbytes; i++) v |= (uint64_t)bytes[pos++] << (8 * i);
            if (n) v %= n;
        } else {
            v = pos < given.size() ? given[pos] : 0;
            pos++;
            if (n && v >= n) v %= n;
        }
        if (rec.size() < 2000000) rec.push_back(v);
        if (gTap && gTap[0] < gTapCap) { gTap[gTap[0] + 1] = v; gTap[0]++; }
        return v;
    }
    bool exhausted() const { return !random && (bytes ? pos >= nbytes : pos >= given.size()); }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    bool coin() { return draw(2) == 1; }
    double unit() { return (double)draw(1ull << 53) / (double)(1ull << 53); }
    template <class C> const typename C::value_type &pick(const C &c) { return *std::next(c.begin(), (long)draw(c.size())); }
    template <class T> T pick(std::initializer_list<T> c) { return *(c.begin() + draw(c.size())); }
    // heavy-tailed size: mostly small, sometimes up to max
    int size(int typical, int max) {
        switch (draw(16)) {
        default: return (int)range(0, typical);
        case 12: case 13: return (int)range(0, std::min(max, typical * 2));
        case 14: return (int)range(0, std::min(max, typical * 4));
        case 15: return (int)range(0, max);
        }
    }
    const std::vector<uint64_t> &choices() const { return rec; }

private:
    uint64_t state = 0;
    bool random;
    std::vector<uint64_t> given;
    const uint8_t *bytes = nullptr;
    size_t nbytes = 0, pos = 0;
    std::vector<uint64_t> rec;
};

// One generated case, as seen by a property.
class Case {
public:
    Case(Src &s, bool verbose) : s(s), verbose(verbose) {}
    Src &s;
    bool verbose;                        // collect the human-readable description
    bool nontrivial = false;
    std::string key;                     // identity of the case for counting distinct ones
    std::map<std::string, long> labels;  // classification
    std::ostringstream desc;
    void label(const std::string &l) { labels[l]++; }
    template <class F> void describe(F &&f) { if (verbose) { f(desc); desc << "\n"; } }
    void note(const std::string &t) { if (verbose) desc << t << "\n"; }
};

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }
template <class... A> [[noreturn]] void failf(A &&...a) {
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    throw Failure{o.str()};
}
inline void require(bool ok, const char *m) { if (!ok) throw Failure{m}; }
#define REQUIRE(cond, ...) do { if (!(cond)) ::pbt::failf(#cond, ": ", __VA_ARGS__); } while (0)

} // namespace pbt

// Provided by each property file.
extern const char *const kPropertyId;
extern const char *const kRule;
void property(pbt::Case &c);
// optional per-property knobs
struct Knobs {
    double cpuLimit = 30;   // CPU seconds one case may use before it counts as a hang
    long defaultCases = 1000;
    bool forkEach = false;  // run every case in its own process
    long plainFactor = 1;   // builds without sanitizers run this many times more cases (read by check.py)
};
extern const Knobs kKnobs;
