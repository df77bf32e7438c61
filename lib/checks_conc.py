"""Mechanism C: executions of the real concurrent code under a deterministic scheduler, validated against TLA+ trace specifications."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vf import *

FL = ["-fno-pie", "-std=c++14", "-g1", "-w", "-pthread", "-DGUL_USING_STATIC_LIB_OR_OBJECTS"]

def build(ctx, harness, srcs):
    """The scheduler is built without, everything else with -fsanitize=thread, whose callbacks the scheduler implements."""
    base = ["g++"] + FL + ["-I" + os.path.join(REPO, "include"), "-I" + HARN]
    jobs = [(os.path.join(HARN, "vsched.cc"), ["-O2"]), (os.path.join(HARN, harness), ["-O0", "-fsanitize=thread"])]
    jobs += [(os.path.join(REPO, "src", s), ["-O0", "-fsanitize=thread"]) for s in srcs]
    def one(j):
        o = os.path.join(ctx.work, os.path.basename(j[0]) + ".o")
        return o, subprocess.run(base + j[1] + ["-c", j[0], "-o", o], capture_output=True, text=True)
    objs = []
    with ThreadPoolExecutor(NCPU) as ex:
        for j, (o, r) in zip(jobs, ex.map(one, jobs)):
            if r.returncode != 0:
                ctx.api_broken(j[0], base + j[1], r.stderr)
                raise MachineryError("compile failed: %s\n%s" % (j[0], r.stderr[-4000:]))
            objs.append(o)
    exe = os.path.join(ctx.work, harness.split(".")[0])
    r = subprocess.run(["g++", "-no-pie"] + objs + ["-o", exe], capture_output=True, text=True)
    if r.returncode != 0:
        rest = sorted(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cc") and f != "version.cc")
        if set(rest) - set(srcs):
            return build(ctx, harness, rest)
        raise MachineryError("link failed:\n" + r.stderr[-4000:])
    return exe

def explain(exe, text):
    def sub(m):
        r = subprocess.run(["addr2line", "-Cfpe", exe, m.group(1)], capture_output=True, text=True)
        return r.stdout.strip() or m.group(0)
    return re.sub(r"pc (0x[0-9a-f]+)", sub, text)

def shards(ctx, exe, profile, n, timeout):
    """Run the harness in n shards; returns [(file, args)] and the summed statistics, or None if the real code crashed or hung."""
    def one(i):
        out = os.path.join(ctx.work, "%s-%d.nd" % (profile, i))
        args = [out, ctx.tier, ctx.seed, profile, i, n]
        return out, args, ctx.run(exe, args, timeout=timeout)
    stats, files = {}, []
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, range(n)))
    for out, args, (rc, so, se) in res:
        if rc == 3:
            raise MachineryError("harness reported an internal error:\n" + se[-3000:])
        if rc != 0:
            rc2, so2, se2 = ctx.run(exe, args, timeout=timeout)
            if rc2 == 0:
                raise MachineryError("harness failed once (%s) and then passed:\n%s" % (rc, se[-3000:]))
            ctx.violate("the real code crashed, terminated or hung (exit %s) under the scheduler, profile %s: %s" % (rc2, profile, se2[-300:]),
                        {"args": [str(a) for a in args], "exit": rc2, "stderr": se2[-4000:]})
            return None
        for k, v in json.loads(so.strip().splitlines()[-1]).items():
            stats[k] = stats.get(k, 0) + v if not isinstance(v, bool) else stats.get(k, True) and v
        files.append((out, args))
    return files, stats

def annotate(line):
    """Add pv: for each task the one that the same worker ran before it (0: none; -1: the task is never started)."""
    t = json.loads(line)
    pv, last = {}, {}
    for e in t["ev"]:
        if e["e"] == "begin" and e["k"] not in pv:
            pv[e["k"]] = last.get(e["f"], 0)
            last[e["f"]] = e["k"]
    n = max([e.get("k", 0) for e in t["ev"] if e["e"] in ("call", "begin")] + [8])
    t["pv"] = [pv.get(k, -1) for k in range(1, n + 1)]
    return json.dumps(t, separators=(",", ":"))

def validate(ctx, exe, files, stats, module, cfg, what, workers=NCPU, timeout=800):
    tr = os.path.join(ctx.work, what.replace(" ", "_") + "-all.nd")
    lines, src = [], []
    for out, args in files:
        for k, l in enumerate(open(out)):
            lines.append(l.rstrip("\n")); src.append((out, args, k))
    if not lines:
        raise MachineryError("no executions recorded for " + what)
    aug = [annotate(l) for l in lines] if module == "PoolTrace" else lines
    open(tr, "w").write("\n".join(aug) + "\n")
    r = ctx.tlc(module, cfg + "INVARIANT Accepted\n", env={"TRACE_FILE": tr}, workers=workers, timeout=timeout, heap="8g")
    if not r.ok:
        raise MachineryError("TLC failed on the executions of %s:\n%s" % (what, r.tail(60)))
    acc = set(int(m) for m in re.findall(r'<<"ACC", (\d+)>>', r.out))
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    ctx.cov["traces_validated_against_impl"] += len(acc)
    ctx.cov.setdefault("executions", []).append(dict(stats, what=what, validated=len(lines)))
    rej = [i for i in range(1, len(lines) + 1) if i not in acc]
    if not rej:
        for i in (len(lines) // 3, 2 * len(lines) // 3):
            if len(lines[i]) < 2500:
                ctx.sample(json.loads(lines[i]))
        return True
    rej = sorted(rej, key=lambda i: len(lines[i - 1]))[:30]
    sub = tr + ".rej"
    open(sub, "w").write("\n".join(aug[i - 1] for i in rej) + "\n")
    p = ctx.tlc(module, cfg + "INVARIANT Progress\n", env={"TRACE_FILE": sub}, workers=workers, timeout=timeout, heap="8g")
    at = {}
    for a, b in re.findall(r'<<"AT", (\d+), (\d+)>>', p.out):
        at[int(a)] = max(at.get(int(a), 0), int(b))
    seen = set()
    for j, i in enumerate(rej, 1):
        t = json.loads(lines[i - 1])
        pos = at.get(j, 1)
        if pos > len(t["ev"]):
            raise MachineryError("execution %d was rejected first and accepted then" % i)
        e = dict(t["ev"][pos - 1])
        if "what" in e:
            e["what"] = explain(exe, e["what"])
        key = (e["e"], e.get("op"), str(e.get("r")), e.get("what"))
        if key in seen or len(seen) >= 4:
            continue
        out, args, k = src[i - 1]
        if not seen:  # the execution has to be repeatable
            rc, so, se = ctx.run(exe, [out + ".again"] + args[1:], timeout=timeout)
            again = open(out + ".again").read().splitlines() if rc == 0 else []
            if k >= len(again) or again[k] != lines[i - 1]:
                raise MachineryError("a rejected execution is not reproducible: " + lines[i - 1][:2000])
        seen.add(key)
        ctx.violate("%s: the real code did what the specification %s does not allow: event %d (%s) of an execution with %s" % (
            what, module, pos, json.dumps(e), t.get("how")), {"module": module, "execution": t, "rejected_event": pos, "event": e, "command": [str(a) for a in args], "line": k + 1})
    return False

# ------------------------------------------------------------------------------------------------ thread pool
IMPL_CFG = """SPECIFICATION %s
CONSTANTS W = %d
 C = %d
 NTasks = %d
 MaxTime = %d
 Cap = 2
 MaxSpurious = %d
 PassOn = TRUE
INVARIANT TypeOK
INVARIANT QuietConserving
INVARIANT ShutdownEnds
INVARIANT DestroyedClean
PROPERTY Refines
%sCHECK_DEADLOCK FALSE
"""
LIVE = "PROPERTY EventuallyRuns\nPROPERTY EventuallyEnds\nPROPERTY ShutdownTerminates\n"
POOL_ASSUME = ["shared variables are touched only under the mutex (shown by the race detector of the scheduler on every execution), so critical sections are atomic in the design model",
               "the scheduler replaces pthread, futex and clock functions; weak memory effects beyond data races are not modelled",
               "systematic exploration is bounded by preemptions and execution count; random schedules cover the rest"]

def pool_check(asp, profile, live=False, long=False):
    def go(ctx):
        ctx.assumptions += POOL_ASSUME
        exe = build(ctx, "h_pool.cc", ["ThreadPool.cc", "Trigger.cc", "cat.cc"])
        base = "SPECIFICATION TSpec\nCONSTANT Asp = {%s}\nCONSTANT NTasks = %d\nVIEW TView\n%sCHECK_DEADLOCK FALSE\n"
        a = ", ".join('"%s"' % x for x in sorted(asp))
        inv = "INVARIANT PoolInv\n" if "cap" in asp and "conc" in asp else ""
        def small():
            s = shards(ctx, exe, profile, 8, ctx.pick(200, 1500))
            return bool(s) and validate(ctx, exe, s[0], s[1], "PoolTrace", base % (a, 8, inv), "thread pool " + profile, workers=ctx.pick(6, 8), timeout=ctx.pick(500, 3000))
        def many():
            s = shards(ctx, exe, "long", 1, 300)
            return bool(s) and validate(ctx, exe, s[0], s[1], "PoolTrace", base % (a, 300, ""), "thread pool with many tasks", workers=2, timeout=1500)
        def design():
            if ctx.quick:
                return ctx.model_check("ThreadPoolImpl", IMPL_CFG % ("LiveSpec" if live else "Spec", 2, 1, 3, 1, 0, LIVE if live else ""), "design of the pool refines the specification", workers=2)
            return ctx.model_check("ThreadPoolImpl", IMPL_CFG % ("LiveSpec" if live else "Spec", 2, 2, 3, 2, 1, LIVE if live else ""), "design of the pool refines the specification", workers=4, timeout=3000)
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(f) for f in ([small, design] + ([many] if long else []))]
            for f in fs:
                f.result()
    return go

# ------------------------------------------------------------------------------------------------ trigger
TRIG_CFG = "SPECIFICATION TSpec\nVIEW TView\nCHECK_DEADLOCK FALSE\n"
TRIGI_CFG = """SPECIFICATION Spec
CONSTANTS NWaiters = %d
 MaxSets = %d
 CountWaiters = TRUE
INVARIANT Inv
INVARIANT NoLostWakeup
PROPERTY DestroyEnds
PROPERTY WaitersLeave
CHECK_DEADLOCK FALSE
"""

def trigger_check(profile):
    def go(ctx):
        ctx.assumptions += POOL_ASSUME[1:]
        exe = build(ctx, "h_trigger.cc", ["Trigger.cc"])
        if profile == "trigger":
            ctx.model_check("TriggerImpl", TRIGI_CFG % (ctx.pick(3, 5), ctx.pick(3, 4)), "design of the trigger")
        s = shards(ctx, exe, profile, 8, ctx.pick(200, 1500))
        if s:
            validate(ctx, exe, s[0], s[1], "TriggerTrace", TRIG_CFG, profile, timeout=ctx.pick(500, 3000))
    return go

CHECKS = {
    "C01": pool_check({"result", "progress"}, "once", live=True, long=True),
    "C02": pool_check({"fifo"}, "once", long=True),
    "C03": pool_check({"time", "progress"}, "time", live=True),
    "C04": pool_check({"cap", "time"}, "cap", long=True),
    "C05": pool_check({"cancel", "result", "time"}, "cancel", long=True),
    "C06": pool_check({"state", "time"}, "state", long=True),
    "C07": pool_check({"shutdown", "result", "progress", "time"}, "shutdown", live=True),
    "C08": trigger_check("trigger"),
    "C09": pool_check({"conc", "signals"}, "progress"),
    "C36": trigger_check("sleep"),
}
