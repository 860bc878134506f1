// One run of one property: generation of its trace and its deciding oracle.
#pragma once
#include "sim.h"
#include "gen.h"
namespace sim { struct Outcome { bool bad=false; int step=-1; std::string msg; Stats st; };
Trace generateProp(const std::string& prop,u64 seed);
Outcome runProp(const std::string& prop,u64 seed,const Trace& t); }
