#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property by simulation
   check.py --build PROPERTY            build only, print the simulator path
   check.py --replay FILE               replay a recorded violation
   check.py --selftest                  same seed, same execution

Everything is rebuilt from /repo's working tree (objects are cached by content).
"""
import atexit, collections, concurrent.futures, glob, hashlib, json, os, re, shutil
import signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build", "obj")
NCPU = max(1, min(8, os.cpu_count() or 1))
LIBF = ["-std=c++17", "-O1", "-g1", "-fsanitize=thread", "--param",
        "tsan-distinguish-volatile=1", "-DNDEBUG",
        '-DGEGELATI_VERSION="1.3.1"', "-DCODE_GENERATION",
        "-I" + REPO + "/gegelatilib/include", "-I" + REPO + "/lib/JsonCpp",
        "-w", "-fno-pie", "-include", VERIF + "/sim/re_decl.h"]
RTF = ["-std=c++17", "-O2", "-g1", "-w", "-fno-pie"]
sys.path.insert(0, os.path.join(VERIF, "ctl"))
from props import PROPS  # noqa: E402


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------- build
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


SLOW = ["common.cpp", "tpgMutator", "tpgGraphDotImporter", "environment.cpp",
        "earningAgent", "GenerationEngine", "jsoncpp", "tpgInstrumentedFactory",
        "tpgFactory", "ExecutionEngine", "program.cpp", "instruction.cpp"]


def build(prop):
    """Returns the path of the simulator for this property, or raises."""
    os.makedirs(BUILD, exist_ok=True)
    heads = sorted(glob.glob(REPO + "/gegelatilib/include/**/*", recursive=True)
                   + glob.glob(REPO + "/lib/JsonCpp/**/*.h", recursive=True)
                   + glob.glob(REPO + "/lib/JsonCpp/**/*.inl", recursive=True))
    hh = sha(*[x for p in heads if os.path.isfile(p)
               for x in (os.path.relpath(p, REPO), rd(p))])
    re = rd(VERIF + "/sim/re_decl.h")
    hh = sha(hh, re)
    vh = sha(rd(VERIF + "/sim/sim.h"),
             *[rd(p) for p in sorted(glob.glob(VERIF + "/harness/*.inc")
                                     + glob.glob(VERIF + "/harness/*.h"))])
    lib = sorted(glob.glob(REPO + "/gegelatilib/src/**/*.cpp", recursive=True))
    lib.append(REPO + "/lib/JsonCpp/jsoncpp.cpp")
    har = [VERIF + "/harness/common.cpp", VERIF + "/harness/driver.cpp"]
    har += sorted(glob.glob(VERIF + "/harness/x_*.cpp"))
    har.append(VERIF + "/harness/%s.cpp" % prop.lower())
    jobs = []
    for s in lib:
        jobs.append((s, sha(hh, rd(s), s, *LIBF), LIBF))
    for s in har:
        jobs.append((s, sha(hh, vh, rd(s), s, *LIBF), LIBF))
    rt = VERIF + "/sim/rt.cpp"
    jobs.append((rt, sha(rd(VERIF + "/sim/sim.h"), rd(rt), *RTF), RTF))
    inst = VERIF + "/sim/re_inst.cpp"
    jobs.append((inst, sha(re, rd(inst), *RTF), RTF))

    def rank(j):
        for i, k in enumerate(SLOW):
            if k in j[0]:
                return i
        return len(SLOW)
    jobs.sort(key=rank)

    def comp(j):
        src, key, flags = j
        o = os.path.join(BUILD, key + ".o")
        if os.path.exists(o):
            return o, ""
        t = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", *flags, "-c", src, "-o", t],
                           capture_output=True, text=True)
        if r.returncode:
            return None, src + "\n" + r.stderr[-3000:]
        os.replace(t, o)
        return o, ""
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(comp, jobs))
    # linked last: see re_inst.cpp
    res = [r for j, r in zip(jobs, res) if j[0] != inst] + [
        r for j, r in zip(jobs, res) if j[0] == inst]
    for o, err in res:
        if o is None:
            raise RuntimeError("compilation failed: " + err)
    exe = os.path.join(BUILD, "sim_%s_%s" % (prop, sha(*sorted(o for o, _ in res))))
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-no-pie", "-rdynamic", "-g1",
                            *[o for o, _ in res], "-o", t, "-ldl", "-lpthread"],
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("link failed: " + r.stderr[-3000:])
        os.replace(t, exe)
    # keep the cache small
    files = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)),
                   key=lambda p: os.path.getmtime(p))
    tot = sum(os.path.getsize(f) for f in files)
    for f in files:
        if tot < 3e9:
            break
        if f == exe or time.time() - os.path.getmtime(f) < 3600:
            continue
        tot -= os.path.getsize(f)
        os.remove(f)
    return exe


# --------------------------------------------------------------------- runs
BASEENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C",
           "HOME": "/tmp"}


_scratch = []


def scratch():
    """A directory for what the simulated programs compile, removed at exit."""
    if not _scratch:
        d = tempfile.mkdtemp(prefix="simscratch.")
        _scratch.append(d)
        atexit.register(shutil.rmtree, d, True)
    return _scratch[0]


def envFor(prop, **kw):
    e = dict(BASEENV)
    c = PROPS[prop]
    e["SIM_MAXSTEPS"] = str(c.get("steps", 6000000))
    e["SIM_SOFT"] = "1"
    e["SIM_TIMEOUT"] = str(c.get("timeout", 100))
    e["SIM_SCRATCH"] = scratch()
    for k, v in kw.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = str(v)
    return e


def run1(exe, prop, seed, plan=None, **kw):
    cmd = [exe, "run", prop, str(seed)]
    tmp = None
    if plan is not None:
        fd, tmp = tempfile.mkstemp(suffix=".plan")
        with os.fdopen(fd, "w") as f:
            f.write(plan)
        cmd.append(tmp)
    try:
        r = subprocess.run(cmd, capture_output=True, env=envFor(prop, **kw),
                           cwd="/tmp")
        return json.loads(r.stdout.decode("utf-8", "replace"))
    except Exception as e:  # noqa
        return {"outcome": "simerror", "cls": "died", "msg": str(e)[:200],
                "seed": seed}
    finally:
        if tmp:
            os.unlink(tmp)


def batch(exe, prop, base, seconds, maxruns, on):
    """on(record) returns True to stop everything."""
    procs = []
    stop = threading.Event()
    lock = threading.Lock()

    def reader(p):
        for line in p.stdout:
            try:
                d = json.loads(line.decode("utf-8", "replace"))
            except Exception:
                d = {"outcome": "simerror", "cls": "badjson",
                     "msg": line[:200].decode("utf-8", "replace"), "seed": 0}
            with lock:
                if not stop.is_set() and on(d):
                    stop.set()
                    for q in procs:
                        try:
                            os.killpg(q.pid, signal.SIGKILL)
                        except OSError:
                            pass
    ths = []
    for k in range(NCPU):
        p = subprocess.Popen([exe, "batch", prop, str(base), str(k), str(NCPU),
                              str(seconds), str((maxruns + NCPU - 1) // NCPU)],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=envFor(prop), cwd="/tmp",
                             start_new_session=True)
        procs.append(p)
    for p in procs:
        t = threading.Thread(target=reader, args=(p,))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    for p in procs:
        p.wait()


LIVE = ("no_progress", "timeout")


def confirm(exe, prop, rec):
    """The record of the violation if it is real and repeatable, else None."""
    seed = rec["seed"]
    if rec["cls"] in LIVE:
        r = run1(exe, prop, seed, SIM_MAXSTEPS=3000000000, SIM_TIMEOUT=260,
                 SIM_SOFT=None)
        if r["outcome"] in ("violation", "timeout"):
            r["outcome"] = "violation"
            return r
        return None
    a = run1(exe, prop, seed)
    b = run1(exe, prop, seed)
    for x in (a, b):
        if x.get("outcome") != "violation" or x.get("cls") != rec["cls"]:
            return None
    if a["eventHash"] != b["eventHash"] or a["schedHash"] != b["schedHash"] \
            or a["steps"] != b["steps"]:
        return None
    return a


# --------------------------------------------------------------- minimising
def planText(knobs, sched=None, faults=None):
    t = ""
    for k, v in sorted(knobs.items()):
        t += "knob %s %d\n" % (k, v)
    if sched is not None:
        t += "sched\n" + "".join("switch %d %d\n" % tuple(s) for s in sched)
    if faults is not None:
        t += "faults\n" + "".join("fault %d %d %d\n" % tuple(s) for s in faults)
    return t


def minimise(exe, prop, rec, budget):
    end = time.time() + budget
    seed, cls = rec["seed"], rec["cls"]
    if cls in LIVE:
        return planText({}), rec
    runs = [0]

    def same(plan):
        runs[0] += 1
        r = run1(exe, prop, seed, plan)
        return r if r.get("outcome") == "violation" and r.get("cls") == cls \
            else None
    knobs, best = {}, rec
    notes = {}
    for k, v in rec.get("notes", {}).items():
        m = re.fullmatch(r"(-?\d+):(-?\d+)", v)
        if m:
            notes[k] = (int(m.group(1)), int(m.group(2)))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for _round in range(2):
            cand = [k for k, (v, lo) in notes.items()
                    if k not in knobs and v != lo]
            changed = False
            i = 0
            while i < len(cand) and time.time() < end - budget / 2:
                part = cand[i:i + NCPU]
                i += NCPU
                res = list(ex.map(lambda k: same(planText(
                    {**knobs, k: notes[k][1]})), part))
                for k, r in zip(part, res):
                    if r:
                        if not knobs or not changed:
                            t, rr = {**knobs, k: notes[k][1]}, r
                        else:
                            t = {**knobs, k: notes[k][1]}
                            rr = same(planText(t))
                        if rr:
                            knobs, best, changed = t, rr, True
            if not changed:
                break
        # the schedule and the faults, as explicit decisions
        tr, fl = best.get("trace"), best.get("faults")
        if not tr and not fl:
            return planText(knobs), best
        r = same(planText(knobs, tr, fl))
        if not r:
            return planText(knobs), best
        best = r

        def ddmin(items, test):
            n = 2
            while len(items) > 0 and time.time() < end:
                size = max(1, (len(items) + n - 1) // n)
                chunks = [(a, min(len(items), a + size))
                          for a in range(0, len(items), size)]
                found = None
                for j in range(0, len(chunks), NCPU):
                    grp = chunks[j:j + NCPU]
                    res = list(ex.map(lambda c: test(items[:c[0]] + items[c[1]:]),
                                      grp))
                    for c, ok in zip(grp, res):
                        if ok:
                            found = (items[:c[0]] + items[c[1]:], ok)
                            break
                    if found or time.time() > end:
                        break
                if found:
                    items = found[0]
                    best2[0] = found[1]
                    n = max(n - 1, 2)
                elif size == 1:
                    break
                else:
                    n = min(n * 2, len(items))
            return items
        best2 = [best]
        if fl:
            fl = ddmin(fl, lambda x: same(planText(knobs, tr, x)))
        if tr:
            tr = ddmin(tr, lambda x: same(planText(knobs, x, fl)))
        return planText(knobs, tr, fl), best2[0]


def symbolise(exe, msg):
    ad = list(dict.fromkeys(re.findall(r"@([0-9a-f]{5,12})\b", msg)))
    if not ad:
        return ""
    try:
        r = subprocess.run(["addr2line", "-Cfse", exe] + ad,
                           capture_output=True, text=True, timeout=60)
        ls = r.stdout.splitlines()
        return "\n".join("  @%s %s %s" % (a, ls[2 * i + 1], ls[2 * i][:160])
                         for i, a in enumerate(ad))
    except Exception:
        return ""


# ------------------------------------------------------------ known findings
def knownFindings(prop):
    out = []
    p = VERIF + "/known_findings.txt"
    if not os.path.exists(p):
        return out
    for line in open(p):
        m = re.match(r"open: property=(\S+) id=(\S+) seed=(\d+) plan=(\S+) "
                     r"outcome=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append(dict(id=m.group(2), seed=int(m.group(3)),
                            plan=m.group(4), outcome=m.group(5),
                            text=m.group(6).strip()))
    return out


# ------------------------------------------------------------------- checking
def writeEvidence(prop, d):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    p = VERIF + "/evidence/%s.json" % prop
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def check(prop, tier):
    t0 = time.time()
    cfg = PROPS[prop]
    try:
        base = int(os.environ.get("VERIF_SEED", "1")) % 1000000007
    except ValueError:
        base = 1
    if base < 0:
        base = -base
    exe = build(prop)
    tb = time.time() - t0
    seconds = cfg["quick_s"] if tier == "quick" else cfg["thorough_s"]
    seconds = float(os.environ.get("VERIF_SECONDS", seconds))
    maxruns = cfg.get("quick_runs" if tier == "quick" else "thorough_runs",
                      10 ** 7)
    st = dict(outcomes=collections.Counter(), fired=collections.Counter(),
              probes=collections.Counter(), scheds=set(), states=set(),
              cases=set(), tot=collections.Counter(), maxThreads=0, samples=[],
              agents=collections.Counter(), seeds=0)
    suspects = []
    longs = []
    odd = []

    def on(d):
        st["seeds"] += 1
        oc = d.get("outcome")
        if oc == "skip":
            if d.get("msg") == "long":
                longs.append(d)
            st["outcomes"]["skip:" + d.get("msg", "")[:60]] += 1
        else:
            st["outcomes"][oc] += 1
        for k, v in d.get("fired", {}).items():
            st["fired"][k] += v
        for k, v in d.get("probes", {}).items():
            st["probes"][k] += v
        for k in ("steps", "switches", "preemptions", "threads", "mutexOps",
                  "mutexBlocked", "raceChecks", "allocs", "reuses",
                  "clockReads", "ioOps", "simNs"):
            st["tot"][k] += d.get(k, 0)
        st["maxThreads"] = max(st["maxThreads"], d.get("maxThreads", 0))
        n = d.get("notes", {})
        if "agentName" in n:
            st["agents"][n["agentName"]] += 1
        if oc == "ok":
            if d.get("switches", 0):
                st["scheds"].add(d["schedHash"])
            for s in d.get("states", []):
                st["states"].add(s)
            if d.get("states") or d.get("switches") or d.get("fired") or \
                    d.get("reuses"):
                st["cases"].add(sha(json.dumps(
                    [d.get("states"), d["schedHash"], d["eventHash"],
                     sorted(n.items())])))
            if len(st["samples"]) < 3 and (d.get("switches", 0) > 3 or
                                           d.get("fired") or
                                           st["seeds"] > 200):
                st["samples"].append({
                    "seed": d["seed"], "steps": d["steps"],
                    "threads": d["threads"], "switches": d["switches"],
                    "faults": d.get("fired", {}),
                    "probes": d.get("probes", {}),
                    "knobs": {k: v.split(":")[0] for k, v in n.items()}})
        elif oc == "violation" or oc == "timeout":
            suspects.append(d)
            return len(suspects) >= 3 or not cfg.get("keep_going")
        elif oc == "simerror":
            odd.append(d)
        return False
    t1 = time.time()
    deadline = t1 + seconds
    confirmed = None
    dismissed = 0
    rnd = 0
    while time.time() < deadline - 0.5 and st["seeds"] < maxruns and \
            confirmed is None:
        batch(exe, prop, base + rnd * 7919, deadline - time.time(),
              maxruns - st["seeds"], on)
        rnd += 1
        for s in suspects:
            confirmed = confirm(exe, prop, s)
            if confirmed:
                break
            dismissed += 1
            log("note: seed %s reported %s and did not repeat it: not a "
                "violation (%s)" % (s.get("seed"), s.get("cls"),
                                    s.get("msg", "")[:200]))
        suspects.clear()
        if rnd > 40:
            break
    # runs that did not end within the soft limit: are they endless?
    if not confirmed and longs and (cfg.get("confirm_long") or len(longs) >
                                    0.1 * st["seeds"]):
        longs.sort(key=lambda d: d["seed"])
        confirmed = confirm(exe, prop, {**longs[0], "cls": "no_progress"})
    ts = time.time() - t1
    replay = None
    known = []
    rc = 0
    if confirmed:
        rc = 1
        plan, best = minimise(exe, prop, confirmed,
                              60 if tier == "quick" else 300)
        d = os.path.join(VERIF, "build", "replays")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, "%s-%d.replay" % (prop, confirmed["seed"]))
        again = run1(exe, prop, confirmed["seed"], plan) \
            if confirmed["cls"] not in LIVE else confirmed
        exact = again.get("cls") == best.get("cls") and \
            again.get("eventHash") == best.get("eventHash") and \
            again.get("steps") == best.get("steps")
        with open(replay, "w") as f:
            f.write("# property %s\n# seed %d\n# class %s\n# message %s\n"
                    "# events %s steps %s replayed-exactly %s\n"
                    "# replay with: python3 /verif/ctl/check.py --replay %s\n"
                    % (prop, confirmed["seed"], best["cls"],
                       best.get("msg", "").replace("\n", " "),
                       best.get("eventHash"), best.get("steps"), exact, replay))
            f.write(plan)
        log("violation of %s: %s: %s" % (prop, best["cls"], best.get("msg")))
        log("seed %d, %d lines in the minimised trace, replayed exactly: %s" %
            (confirmed["seed"], plan.count("\n"), exact))
        sy = symbolise(exe, best.get("msg", ""))
        if sy:
            log(sy)
            with open(replay, "a") as f:
                f.write("".join("# %s\n" % x for x in sy.splitlines()))
        if best.get("log"):
            log("\n".join(best["log"].splitlines()[-25:]))
        log("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        for k in knownFindings(prop):
            with open(VERIF + "/" + k["plan"]) as f:
                plan = f.read()
            r = run1(exe, prop, k["seed"], plan)
            if r.get("outcome") + ":" + r.get("msg", "") == k["outcome"] or \
                    r.get("outcome") + ":" + r.get("cls", "") == k["outcome"]:
                known.append(k["id"])
                log("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"],
                                                           k["text"]))
            elif r.get("outcome") == "violation":
                c = confirm(exe, prop, {**r, "seed": k["seed"]})
                log("note: known finding %s now gives %s" % (k["id"], r))
    # a simulator problem is not silently ignored
    ratio = (st["outcomes"].get("simerror", 0) / max(1, st["seeds"]))
    if rc == 0 and (ratio > 0.02 or st["seeds"] == 0 or
                    st["outcomes"].get("ok", 0) == 0):
        log("error: %d of %d runs could not be simulated: %s" %
            (st["outcomes"].get("simerror", 0), st["seeds"], odd[:2]))
        rc = 2
    tot = st["tot"]
    hours = max(ts, 1e-3) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": st["seeds"],
            "distinct_nontrivial": len(st["cases"]),
            "rule": cfg["rule"] + " A run counts when it ended normally and "
            "had a context switch, an injected fault, an address reuse or a "
            "recorded state; two runs are the same when knobs, interleaving "
            "hash, event hash and recorded states are all equal.",
            "samples": st["samples"] or [{"note": "no sample kept"}],
            "outcomes": dict(st["outcomes"]),
            "agents": dict(st["agents"]),
            "simulated_runs_per_hour": int(st["seeds"] / hours),
            "seeds_per_hour": int(st["seeds"] / hours),
            "simulated_steps": tot["steps"],
            "simulated_time_s": round(tot["simNs"] / 1e9, 3),
            "fault_kinds_injected": dict(st["fired"]),
            "rare_conditions": dict(st["probes"]),
            "distinct_interleavings": len(st["scheds"]),
            "distinct_states": len(st["states"]),
            "context_switches": tot["switches"],
            "preemptions": tot["preemptions"],
            "threads_created": tot["threads"],
            "max_live_threads": st["maxThreads"],
            "mutex_operations": tot["mutexOps"],
            "accesses_checked_for_races": tot["raceChecks"],
            "allocations": tot["allocs"], "addresses_reused": tot["reuses"],
            "io_operations": tot["ioOps"],
            "clock_readings": tot["clockReads"],
            "dismissed_unrepeatable": dismissed,
            "simulator_errors": st["outcomes"].get("simerror", 0),
            "known_findings": known,
            "real_components": cfg.get("real", "every source file of "
                                       "gegelatilib and JsonCpp, compiled from "
                                       "/repo's working tree"),
            "stub_components": cfg.get(
                "stub", "learning environments and instruction set written "
                "for the simulation; pthread, clock, malloc and file calls "
                "served by the simulator"),
            "build_s": round(tb, 1), "simulation_s": round(ts, 1),
        },
        "assumptions": cfg.get("assumptions", []) + [
            "sequentially consistent interleavings at memory-access "
            "granularity; races are reported by happens-before instead of "
            "simulating weak memory"],
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if confirmed else 0,
    }
    if replay:
        ev["coverage"]["replay"] = replay
    writeEvidence(prop, ev)
    for d in odd[:3]:
        log("note: seed %s could not be simulated: %s" % (d.get("seed"),
                                                          d.get("msg")))
    log("%s %s: %d runs (%s), %d distinct, %.1f s build, %.1f s simulation" %
        (prop, tier, st["seeds"], dict(st["outcomes"]), len(st["cases"]), tb,
         ts))
    return rc


def replayFile(path):
    txt = open(path).read()
    prop = re.search(r"# property (\S+)", txt).group(1)
    seed = int(re.search(r"# seed (\d+)", txt).group(1))
    exe = build(prop)
    r = run1(exe, prop, seed, txt)
    log(json.dumps({k: r.get(k) for k in ("outcome", "cls", "msg", "seed",
                                          "steps", "eventHash")}, indent=1))
    log(r.get("log", ""))
    return 1 if r.get("outcome") == "violation" else 0


def selftest():
    bad = 0
    for prop in sorted(PROPS):
        if not os.path.exists(VERIF + "/harness/%s.cpp" % prop.lower()):
            continue
        exe = build(prop)
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            seeds = [424242 + i for i in range(24)]
            a = list(ex.map(lambda s: run1(exe, prop, s), seeds))
            b = list(ex.map(lambda s: run1(exe, prop, s), seeds))
        n = sum(1 for x, y in zip(a, b) if x != y)
        log("%s: %d of %d seeds gave a different execution" % (prop, n,
                                                               len(seeds)))
        bad += n
    return 1 if bad else 0


def main():
    os.environ.pop("MAKEFLAGS", None)
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        print(build(a[1]))
        return 0
    if a[:1] == ["--replay"]:
        return replayFile(a[1])
    if a[:1] == ["--selftest"]:
        return selftest()
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(a[0], tier)
    except RuntimeError as e:
        log("error: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
