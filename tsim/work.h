// Workloads of the thread simulator: seeded generation and execution of one simulated multi-threaded run.
#pragma once
#include "rt.h"
namespace tw { using namespace sim; using rt::Dec; using rt::Policy;
struct Line { int round=0; std::string s; };
struct Work { std::vector<std::string> setup; int rounds=1; std::vector<std::vector<Line>> th; };
Work gen16(u64 seed); void run16(const Work&,u64 seed);
Work gen17(u64 seed); void run17(const Work&,u64 seed);
Work gen18(u64 seed); void run18(const Work&,u64 seed);
inline Work gen(const std::string& p,u64 s){ return p=="C16"?gen16(s):p=="C17"?gen17(s):gen18(s); }
inline void exec(const std::string& p,const Work& w,u64 s){ if(p=="C16") run16(w,s); else if(p=="C17") run17(w,s); else run18(w,s); }
inline std::string first(const std::string& l){ size_t k=l.find(' '); return l.substr(0,k); }
void stat(const std::string& key,long long v);   // accumulates a statistic of the run (harness side)
void flushStats();
extern Hash gRunHash; // observable outcome of the run
}
