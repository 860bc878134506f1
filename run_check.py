#!/usr/bin/env python3
"""Entry point of every check:  run_check.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)
                                run_check.py --replay FILE       (replays a recorded trace; exit 1 if the violation shows again)
                                run_check.py --setup             (builds every simulator variant)
Builds the simulator from /repo's working tree, runs the seeded simulations of one property on all cores, minimises and
re-validates a violation in fresh processes, writes evidence/<PROPERTY>.json.
Exit: 0 held on everything explored, 1 violated (VIOLATION line), 2 the check itself could not work."""
import sys, os, subprocess, hashlib, glob, json, time, re, shutil, random
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("SIM_REPO", "/repo"); B = os.path.join(V, "build")
CORES = max(1, min(8, os.cpu_count() or 8))
sys.path.insert(0, os.path.join(V, "tools"))
from checks_config import CHECKS, VARIANTS, COMMON_ASSUMPTIONS   # noqa: E402

def log(*a): print(*a, flush=True)

def lib_sources():
    return sorted(f for f in glob.glob(REPO + "/src/**/*.cpp", recursive=True))

def tree_hash(extra):
    h = hashlib.sha256()
    files = lib_sources() + sorted(glob.glob(REPO + "/include/**/*.h", recursive=True)) + sorted(glob.glob(REPO + "/src/**/*.h", recursive=True))
    files += sorted(glob.glob(V + "/sim/*")) + sorted(glob.glob(V + "/tsim/*")) + sorted(glob.glob(V + "/dsim/*"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(json.dumps(extra, sort_keys=True).encode())
    return h.hexdigest()[:24]

def par(cmds):
    """runs the commands at most CORES at a time; returns [(rc, output)]"""
    out = [None] * len(cmds); run = {}; todo = list(range(len(cmds)))
    while todo or run:
        while todo and len(run) < CORES:
            k = todo.pop(0)
            f = open(os.path.join(B, "out.%d.%d" % (os.getpid(), k)), "w+")
            run[k] = (subprocess.Popen(cmds[k], stdout=f, stderr=subprocess.STDOUT), f)
        for k in list(run):
            p, f = run[k]
            if p.poll() is not None:
                f.seek(0); out[k] = (p.returncode, f.read()); f.close(); os.unlink(f.name); del run[k]
        time.sleep(0.01)
    return out

def build(variant):
    v = VARIANTS[variant]; os.makedirs(B, exist_ok=True)
    d = os.path.join(B, variant); exe = os.path.join(d, "simrun"); stamp = os.path.join(d, "stamp"); h = tree_hash(v)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h: return exe
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    alone = [f for f in lib_sources() if v.get("separate") and v["separate"] in f]
    srcs = [f for f in lib_sources() if f not in alone]; n = 8
    chunks = [srcs[k::n] for k in range(n)] + [[f] for f in alone]; n = len(chunks)
    class Broken(Exception): pass
    def die(msg, out):
        log(out[-3000:])
        if v.get("optional"): raise Broken(msg)
        log("ERROR: " + msg); sys.exit(2)
    try: return build_in(v, d, exe, stamp, h, chunks, n, die)
    except Broken as e: log("note: variant %s is left out: %s" % (variant, e)); return None

def build_in(v, d, exe, stamp, h, chunks, n, die):
    cxx = v["cxx"]; flags = ["-std=c++17", "-w", "-I" + REPO + "/include"]
    libflags = flags + v["lib"]; simflags = flags + v["sim"]
    cmds = []; objs = []
    for k, c in enumerate(chunks):
        u = os.path.join(d, "u%d.cpp" % k); open(u, "w").write("".join('#include "%s"\n' % f for f in c))
        cmds.append([cxx] + libflags + ["-c", u, "-o", u[:-4] + ".o"]); objs.append(u[:-4] + ".o")
    simsrc = []
    for pat in v["simsrc"]: simsrc += sorted(glob.glob(os.path.join(V, pat)))
    simsrc = [f for f in simsrc if os.path.relpath(f, V) not in v.get("simskip", [])]
    sobjs = []
    for f in simsrc:
        o = os.path.join(d, "s_" + os.path.basename(f) + ".o"); sobjs.append(o)
        cmds.append([cxx] + simflags + ["-c", f, "-o", o])
    order = list(range(len(cmds)))
    res = par([cmds[k] for k in order])
    libobjs = []
    for k in range(n):
        if res[k][0] == 0: libobjs.append(objs[k]); continue
        # file-local names of two sources may clash in one unit: compile the sources of this chunk one by one
        cs = []; os_ = []
        for j, f in enumerate(chunks[k]):
            o = os.path.join(d, "p%d_%d.o" % (k, j)); os_.append(o); cs.append([cxx] + libflags + ["-c", f, "-o", o])
        for rc, out in par(cs):
            if rc != 0: die("/repo does not build", out)
        libobjs += os_
    for k in range(n, len(res)):
        if res[k][0] != 0: die("the simulator does not build against /repo", res[k][1])
    if v.get("weaken"):
        for o in libobjs:
            syms = []
            for l in subprocess.run(["nm", "--defined-only", o], stdout=subprocess.PIPE, text=True).stdout.splitlines():
                w = l.split()
                if len(w) == 3 and w[1] == "T": syms.append(w[2])
            dem = subprocess.run(["c++filt"], input="\n".join(syms), stdout=subprocess.PIPE, text=True).stdout.splitlines()
            ws = [a for a, b in zip(syms, dem) if any(re.search(r"\b" + re.escape(x) + r"\(", b) for x in v["weaken"])]
            if ws: subprocess.check_call(["objcopy"] + ["--weaken-symbol=" + a for a in ws] + [o])
    # the objects of the library come first when they are instrumented: their copies of inline functions are the ones linked
    rc, out = par([[cxx, "-o", exe] + (libobjs + sobjs if v.get("libfirst") else sobjs + libobjs) + v["link"]])[0]
    if rc != 0: die("link failed", out)
    for o in libobjs + sobjs: os.unlink(o)
    open(stamp, "w").write(h)
    return exe

def run_part(exe, part, prop, base, count, maxtime, outprefix):
    per = (count + CORES - 1) // CORES; procs = []
    for k in range(CORES):
        f = open("%s.w%d" % (outprefix, k), "w+")
        cmd = [exe, "--prop", part.get("prop", prop), "--seed", str(base + k * per), "--count", str(per), "--maxviol", "1", "--maxtime", str(maxtime), "--out", outprefix]
        if part.get("timeout"): cmd += ["--timeout", str(part["timeout"])]
        procs.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.DEVNULL), f))
    st = {}; viol = []; hist = {}; runs = 0
    alive = list(procs); found = False
    while alive:
        for p in list(alive):
            if p[0].poll() is not None: alive.remove(p); found = found or p[0].returncode == 1
        if found and alive:          # one worker found a violation: give the others a moment, then stop
            time.sleep(1.0)
            for p in alive: p[0].terminate()
            for p in alive: p[0].wait()
            alive = []
        time.sleep(0.02)
    for p, f in procs:
        f.flush(); f.seek(0)
        for l in f:
            w = l.rstrip("\n").split(" ", 3)
            if w[0] == "V" and len(w) >= 3: viol.append((int(w[1]), int(w[2]), w[3] if len(w) > 3 else ""))
            elif w[0] == "H": hist[w[1]] = hist.get(w[1], 0) | int(w[2]); runs += 1
            elif w[0] == "S":
                st[w[1]] = max(st.get(w[1], 0), int(w[2])) if w[1].startswith("max_") else st.get(w[1], 0) + int(w[2])
        f.close(); os.unlink(f.name)
    return runs, st, viol, hist

def replay(exe, f, timeout=120):
    r = subprocess.run([exe, "--replay", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    m = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION ")]
    return (m[0] if m else None)

def load_known(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    for l in (open(p) if os.path.exists(p) else []):
        m = re.match(r"known: property=(\S+) replay=(\S+) match=/(.*?)/ (.*)", l.rstrip("\n"))
        if m and m.group(1) == prop: out.append(dict(replay=os.path.join(V, m.group(2)), rx=re.compile(m.group(3)), what=m.group(4)))
    return out

def main():
    if sys.argv[1] == "--setup":
        for v in VARIANTS: t = time.time(); build(v); log("built", v, "%.1fs" % (time.time() - t))
        return 0
    if sys.argv[1] == "--replay":
        head = open(sys.argv[2]).read(4000); variant = re.search(r"# variant=(\S+)", head).group(1)
        m = replay(build(variant), sys.argv[2]); log(m or "no violation"); return 1 if m else 0
    prop = sys.argv[1]; seed = int(os.environ.get("VERIF_SEED", "1")); tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    cfg = CHECKS[prop]; t0 = time.time(); known = load_known(prop)
    rep = os.path.join(V, "replays"); os.makedirs(rep, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    total = {}; hist = {}; runs = 0; status = 0; samples = []; parts_ev = []; unrepro = 0; nviol = 0; sim_wall = 0.0
    for pi, part in enumerate(cfg["parts"]):
        exe = build(part["variant"])
        if exe is None: continue
        count = part["quick"] if tier == "quick" else part.get("thorough", part["quick"] * 25)
        maxtime = part.get("maxtime", 200) if tier == "quick" else part.get("thorough_maxtime", 1500)
        base = 1 + 50_000_000 * pi + (seed - 1) * 1_000_000_007 % 10**15
        # listed findings: the recorded trace must still show the recorded failure
        for kf in known:
            if pi == 0 and os.path.exists(kf["replay"]):
                m = replay(exe, kf["replay"])
                if m and kf["rx"].search(m): log("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
        ts = time.time(); done = 0; rnd = 0
        while done < count:
            outp = os.path.join(B, "run.%s.%d.%d" % (prop, os.getpid(), pi))
            r, st, viol, h = run_part(exe, part, prop, base + done, count - done, max(1, maxtime - (time.time() - ts)), outp)
            runs += r
            for k, x in st.items(): total[k] = max(total.get(k, 0), x) if k.startswith("max_") else total.get(k, 0) + x
            for k, x in h.items(): hist[k] = hist.get(k, 0) | x
            done = count
            for (sd, step, msg) in sorted(viol):
                tr = "%s.%d" % (outp, sd)
                if any(k["rx"].search(msg) for k in known): continue
                if status == 1: continue
                out = os.path.join(rep, "%s-%s-%d.trace" % (prop, part["variant"], sd))
                subprocess.run([exe, "--shrink", tr, "--out", out, "--shrinktime", "45"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if not os.path.exists(out) and os.path.exists(tr): shutil.copy(tr, out)
                ms = []
                if os.path.exists(out):
                    txt = open(out).read(); open(out, "w").write("# variant=%s\n" % part["variant"] + txt)
                    ms = [replay(exe, out) for _ in range(3)]
                if len(ms) == 3 and all(ms) and len(set(ms)) == 1:
                    nviol += 1; status = 1
                    log("violated after seed %d: %s" % (sd, ms[0])); log("VIOLATION property=%s replay=%s" % (prop, out))
                else: # not reproducible with the minimised trace: try the full one
                    if os.path.exists(tr):
                        shutil.copy(tr, out); txt = open(out).read(); open(out, "w").write("# variant=%s\n" % part["variant"] + txt)
                        ms = [replay(exe, out) for _ in range(3)]
                    if len(ms) == 3 and all(ms):
                        nviol += 1; status = 1
                        log("violated after seed %d: %s" % (sd, ms[0])); log("VIOLATION property=%s replay=%s" % (prop, out))
                    else:
                        unrepro += 1; log("note: a reported violation (seed %d: %s) did not reproduce and is not counted" % (sd, msg[:200]))
            for f in glob.glob(outp + "*"): os.unlink(f)
        sim_wall += time.time() - ts
        # a sample run of this check, written out
        smp = os.path.join(B, "sample.%d" % os.getpid())
        subprocess.run([exe, "--prop", part.get("prop", prop), "--dump", smp, "--seed", str(base)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(smp):
            samples.append(dict(seed=base, variant=part["variant"], operations=[l[1:].strip()[:140] for l in open(smp) if l.startswith("#  ")][:40])); os.unlink(smp)
        parts_ev.append(dict(variant=part["variant"], scenario=part.get("prop", prop), what=part.get("what", ""), runs_requested=count))
        if status: break
    nontriv = sum(1 for x in hist.values() if x)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], wall_s=round(wall, 2), violations=nviol,
              assumptions=COMMON_ASSUMPTIONS + cfg.get("assumptions", []),
              coverage=dict(evaluations=runs, distinct_nontrivial=nontriv, rule=cfg["rule"], samples=samples,
                            runs_per_hour=int(runs / max(sim_wall, 1e-3) * 3600), simulated_seconds=round(total.get("sim_ms", 0) / 1000.0, 2),
                            faults_injected={k: x for k, x in sorted(total.items()) if k.startswith("fault_")},
                            operations={k[3:]: x for k, x in sorted(total.items()) if k.startswith("op_")},
                            oracle_counters={k: x for k, x in sorted(total.items()) if not k.startswith(("op_", "fault_", "sim_ms"))},
                            distinct_histories=len(hist), distinct_measure=cfg.get("measure", "hash of the sequence of executed operations, delivered events and sleeping flags of the run"),
                            parts=parts_ev, unreproduced_reports=unrepro,
                            real_components=cfg.get("real", ["the whole library, compiled from /repo's working tree with assertions enabled"]),
                            stubbed_components=cfg.get("stub", ["the heap behind MemoryAllocator (simulated placement, reuse and fill)", "client code (seeded generator)"])))
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    log("%s %s: %d runs (%d distinct histories), %.0f simulated seconds, %.1f s" % (prop, "VIOLATED" if status else "held", runs, len(hist), total.get("sim_ms", 0) / 1000.0, wall))
    return status

sys.exit(main())
