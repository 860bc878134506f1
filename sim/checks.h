#pragma once
#include "sim.h"
namespace sim { void addCheckers(Sim& s,const std::string& prop); }
