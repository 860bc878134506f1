"""Which simulator variant and how many seeds decide each property."""
SIMSRC = ["sim/*.cpp"]
VARIANTS = {
  "float":  dict(cxx="g++", lib=["-O1"], sim=["-O1"], simsrc=SIMSRC, link=["-lpthread"]),
  "double": dict(cxx="g++", lib=["-O1", "-DIS_RP3D_DOUBLE_PRECISION_ENABLED"], sim=["-O1", "-DIS_RP3D_DOUBLE_PRECISION_ENABLED"], simsrc=SIMSRC, link=["-lpthread"]),
  # the library's allocators replaced by direct allocation (dsim/direct.cpp), everything under AddressSanitizer
  "asan": dict(cxx="clang++", lib=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], sim=["-O1", "-fsanitize=address"], simsrc=SIMSRC + ["dsim/*.cpp"], link=["-fsanitize=address", "-lpthread"], separate="/memory/", optional=True,
    weaken=[c + "::" + m for c in ("HeapAllocator", "PoolAllocator", "SingleFrameAllocator") for m in ("allocate", "release", "reset")]),
  # every memory access and atomic operation of the library calls into the scheduler of tsim/rt.cpp (no ThreadSanitizer runtime is linked)
  "thread": dict(cxx="clang++", lib=["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"], sim=["-O1"], simsrc=SIMSRC + ["tsim/*.cpp"], simskip=["sim/main.cpp"], libfirst=True,
    link=["-rdynamic", "-lpthread", "-ldl", "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc"))]),
}
COMMON_ASSUMPTIONS = [
  "one thread drives one PhysicsCommon (the library is documented as single threaded), except in the thread simulations",
  "API calls respect the documented preconditions (positive sizes, distinct joint bodies, no destroyed handles)",
]
def S(q, variant="float", **k): return dict(variant=variant, quick=q, **k)
RULE = "one evaluation = one seeded run (a generated API history with its memory environment, executed and judged); non-trivial = at least one contact or trigger event was delivered; distinct = different hash of executed operations, events and sleeping flags"
TRULE = "one evaluation = one seeded multi-threaded run (workload, schedule and faults from the seed, executed deterministically and judged); non-trivial = at least three context switches and an access to memory also used by another thread; distinct = different hash of the sequence of scheduling decisions and of the outcome"
TMEAS = "hash of the sequence of (thread, thread) scheduling decisions and of the observable outcome of the run"
TREAL = ["the whole library, compiled from /repo's working tree with assertions enabled and every memory access instrumented", "libstdc++ streams, strings and file buffers"]
TSTUB = ["thread scheduling (one thread runs at a time, chosen by the simulator)", "pthread mutexes, once, condition variables, static initialisation guards", "the C and C++ heap behind the library", "client code (seeded generator)"]
CHECKS = {
  "C01": dict(parts=[S(8000, what="history executed twice in two memory environments"), S(2000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C02": dict(parts=[S(6000, what="history with and without observing calls and listener"), S(1500, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C03": dict(parts=[S(6000, what="several worlds together against each world alone"), S(1500, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C04": dict(parts=[S(8000, what="full history with accounting allocator"), S(2400, variant="asan", timeout=60, what="the same with direct allocation under AddressSanitizer; cyclic histories whose memory use must stay flat")], level="exploration", rule=RULE),
  "C05": dict(parts=[S(12000, what="every getter against the reference model"), S(3000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C06": dict(parts=[S(16000, what="start/stay/exit automaton per pair"), S(4000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C07": dict(parts=[S(10000, what="reported pairs and contact points against an independent geometry oracle"), S(3000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C08": dict(parts=[S(16000, what="sleep state machine and liveness"), S(4000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C09": dict(parts=[S(16000, what="integration of static, kinematic and free dynamic bodies"), S(4000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C10": dict(parts=[S(30000, what="damping, gravity, forces"), S(6000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C11": dict(parts=[S(24000, what="energy, momentum and warm-start laws over dynamics scenes"), S(6000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C12": dict(parts=[S(20000, what="every query against an independent geometry oracle"), S(5000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C13": dict(parts=[S(14000, what="joint errors, limits, motors and reported reactions over joint scenes"), S(4000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C14": dict(parts=[S(10000, what="contact impulses, restitution, friction, resting, stacks and tunnelling over contact scenes"), S(3000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C15": dict(parts=[S(12000, what="mesh creation from every data layout with faults, buffers reused afterwards, same trace with other layouts"), S(3000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C16": dict(parts=[S(16000, variant="thread", what="threads allocating, handing over and releasing blocks of shared and independent allocators under a seeded scheduler")], level="exploration", rule=TRULE, measure=TMEAS, real=TREAL, stub=TSTUB),
  "C17": dict(parts=[S(16000, variant="thread", what="threads logging through one logger to failing and healthy destinations under a seeded scheduler")], level="exploration", rule=TRULE, measure=TMEAS, real=TREAL, stub=TSTUB + ["system calls write/writev (failing and short writes)", "the wall clock"]),
  "C18": dict(parts=[S(4000, variant="thread", what="threads that each run their own PhysicsCommon under a seeded scheduler, against the same histories run alone")], level="exploration", rule=TRULE, measure=TMEAS, real=TREAL, stub=TSTUB),
  "C19": dict(parts=[S(20000, what="every state variable finite after every step"), S(5000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C22": dict(parts=[S(8000, what="groups of objects together in one world against subsets of the groups and other orders"), S(2000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
  "C23": dict(parts=[S(10000, what="every debug triangle and line against the shapes, bounds and contacts of the world"), S(3000, variant="double", what="the same in double precision")], level="exploration", rule=RULE),
}
TECH = "deterministic simulation: seeded API histories and faults against the real library, judged by a reference model"
NOTE = "Seeded search over generated histories: no proof. Trusts the reference model in sim/ and the compiler; assertions of the library are enabled and a crash or assertion in a run counts as a violation."
NOT_APPLICABLE = {
 "C20": "Pure functions of their arguments (GJK/SAT/quickhull on given geometry): no schedule, time, I/O or history for a simulator to control; a differential fuzzer of geometry would be another technique. What of it is visible through a history is checked by C07, C12 and C15.",
 "C21": "Pure algebra on value types without state, time or concurrency: nothing for deterministic simulation to schedule or fault.",
}
