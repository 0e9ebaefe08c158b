#pragma once
#include "interp.h"
std::vector<std::string> single1Run(const script::Script &s);
std::vector<std::string> single2Run(const script::Script &s);
void *single1Config();
void *single2Config();
void single1Reset();
void single2Reset();
