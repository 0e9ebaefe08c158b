#include <tomsolver/tomsolver.h>
#define INTERP_NS interp_single2
#include "interp.inc"
#include "units.h"
std::vector<std::string> single2Run(const script::Script &s) { interp_single2::Interp p; p.run(s); return p.log; }
void *single2Config() { return &tomsolver::Config::Get(); }
void single2Reset() { tomsolver::Config::Get().Reset(); }
