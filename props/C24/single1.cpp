#include <tomsolver/tomsolver.h>
#define INTERP_NS interp_single1
#include "interp.inc"
#include "units.h"
std::vector<std::string> single1Run(const script::Script &s) { interp_single1::Interp p; p.run(s); return p.log; }
void *single1Config() { return &tomsolver::Config::Get(); }
void single1Reset() { tomsolver::Config::Get().Reset(); }
