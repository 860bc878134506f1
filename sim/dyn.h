// Dynamics oracles (C11 conservation, C13 joints, C14 contacts) and the scene generators that feed them.
#pragma once
#include "sim.h"
namespace sim {
void addDynCheckers(Sim& s,const std::string& prop);
Trace generateDyn(const std::string& prop,u64 seed); // C11, C13, C14
bool isDyn(const std::string& prop);
}
