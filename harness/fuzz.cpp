// libFuzzer driver: the same property bodies, choices decoded from the fuzzer's bytes.
#include "pbt.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
#include <unordered_set>
using namespace pbt;

static long evals, nontrivial;
static std::unordered_set<uint64_t> distinct;
static void save() {
    const char *f = getenv("FUZZ_STATS");
    if (!f) return;
    std::ofstream o(std::string(f) + "." + std::to_string(getpid()));
    o << evals << " " << nontrivial << " " << distinct.size() << "\n";
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    atexit(save);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n) {
    Src s(p, n);
    Case c(s, false);
    bool bad = false;
    try {
        property(c);
    } catch (const Discard &) {
        return -1; // keep it out of the corpus
    } catch (...) {
        bad = true;
    }
    if (bad) {
        save();
        abort();
    }
    evals++;
    if (c.nontrivial) {
        nontrivial++;
        uint64_t h;
        if (!c.key.empty()) h = hashStr(c.key);
        else { h = 7; for (auto v : s.choices()) h = mix(h ^ v); }
        if (distinct.size() < 5000000) distinct.insert(h);
    }
    if ((evals & 1023) == 0) save();
    return 0;
}
