// Deterministic thread simulator: seeded scheduler, simulated pthread synchronisation, happens-before race detection,
// simulated clock, failing allocations and writes. The library under test is compiled with -fsanitize=thread so that
// every memory access and atomic operation calls into this runtime (no ThreadSanitizer runtime is linked).
#pragma once
#include "../sim/core.h"
namespace rt {
using namespace sim;
const int MAXT=5;                              // controller (0) and at most four simulated threads
struct Dec { int t; u64 ev; int to; };         // thread t, at its event number ev, hands over to thread "to"
struct Policy { int kind=0;                    // 0 replay/none, 1 synchronisation points only, 2 random walk, 3 priorities with few change points, 4 at shared accesses
  double pSync=0.3; double gap=1000; int changes=3; u64 length=3000; double pShared=0.2; u64 seed=1; std::string str() const; };
Policy policyFor(u64 seed,bool longRuns);
void init(int reportFd);                       // once per process
void begin(const Policy& p,const std::vector<Dec>* replay,u64 maxEvents);   // controller: before run()
void run(std::vector<std::function<void()>> bodies);                        // controller: runs the threads to completion under the scheduler
void report(const std::string& msg);           // violation: writes message and schedule, ends the process
void yieldPoint();                             // scheduling point inside harness code
void access(const void* p,size_t n,bool write);// harness access to memory shared with the library
int self();                                    // id of the current thread (0 controller)
void note(const std::string& line);            // line for the parent (statistics)
void failAllocation(long k);                   // the k-th next allocation of this thread throws bad_alloc (0: off)
bool allocationFailed();                       // whether that happened since
void clockSet(long sec); void clockJitter(u64 seed); // simulated wall clock
struct FileFault { std::string path; int kind=0; long at=0; };              // kind 1 ENOSPC from the at-th write on, 2 EINTR once, 3 short writes, 4 EIO once
void fileFault(const FileFault& f);
size_t heapLive();                             // live blocks of the intercepted C/C++ heap
struct Counters { u64 events=0, switches=0, forced=0, syncs=0, atomics=0, accesses=0, blocked=0, spins=0, allocFaults=0, writeFaults=0, sharedGranules=0; u64 schedHash=0; };
Counters& counters(); const std::vector<Dec>& decisions();
struct Quiet { Quiet(); ~Quiet(); };           // harness section: no scheduling point, no checking, private heap
void clearShadow(const void* p,size_t n,bool freed); // a block handed out or taken back by a harness allocator
struct Mutex { alignas(16) char m[64]; Mutex(); void lock(); void unlock(); };  // harness lock seen by the scheduler
}
