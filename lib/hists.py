"""Mechanism B: histories of operations recorded from the real code, validated event by event against a state machine (spec/Histories.tla)."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from vf import *
from recs import nth_line, confirmed

CFG = """SPECIFICATION HSpec
CONSTANT Start <- HStart
CONSTANT Allowed <- HAllowed
CONSTANT After <- HAfter
%s
INVARIANT Conforms
CHECK_DEADLOCK FALSE
"""

def split(path, parts):
    """Deal the lines of a file out to several files; returns [(file, first line number of the original per line)]."""
    files = [(open("%s.%d" % (path, i), "w"), []) for i in range(parts)]
    with open(path) as f:
        for n, l in enumerate(f, 1):
            w, idx = files[(n - 1) % parts]
            w.write(l); idx.append(n)
    for w, _ in files:
        w.close()
    return [(w.name, idx) for w, idx in files if idx]

def validate(ctx, module, consts, rec, what, rerun=None, parts=4, heap="3g", timeout=700):
    n = sum(1 for _ in open(rec))
    if n == 0:
        raise MachineryError("no histories for " + what)
    pieces = split(rec, max(1, min(parts, n // 50 + 1)))
    cfg = CFG % "\n".join("CONSTANT %s = %s" % kv for kv in consts.items())
    def one(p):
        return ctx.tlc(module, cfg, env={"REC_FILE": p[0]}, workers=max(1, NCPU // len(pieces)), heap=heap, timeout=timeout, name=module)
    with ThreadPoolExecutor(len(pieces)) as ex:
        res = list(ex.map(one, pieces))
    good = True
    for (fname, idx), r in zip(pieces, res):
        if r.ok:
            ctx.cov["states"] += r.distinct
            ctx.cov["transitions"] += r.generated
            ctx.cov["traces_validated_against_impl"] += len(idx)
            continue
        m = re.search(r'<<"MISMATCH", (\d+), (\d+)>>', r.out)
        if not ("Conforms" in r.invariant and m):
            raise MachineryError("TLC failed on histories of %s:\n%s" % (what, r.tail(60)))
        k, at = idx[int(m.group(1)) - 1], int(m.group(2))
        line = nth_line(rec, k)
        if rerun and not confirmed(rerun, k, line, lambda f: ctx.tlc(module, cfg, env={"REC_FILE": f}, heap=heap, timeout=timeout, name=module)):
            raise MachineryError("history %d is not reproducible:\n%s" % (k, line[:2000]))
        h = json.loads(line)
        st = re.search(r'<<"STATE", (.*?)>>\n(?=\S)', r.out, re.S)
        head = {x: h[x] for x in h if x != "ev"}
        ops = " ".join(e["o"] for e in h["ev"][:at])
        ctx.violate("%s: %s: after the operations [%s], event %d was observed as %s, which %s does not allow" % (
            what, json.dumps(head), ops, at, json.dumps(h["ev"][at - 1])[:1500], module),
            {"history": dict(head, ev=h["ev"][:at]), "event": at, "model_state": st.group(1)[:2000] if st else "", "module": module})
        good = False
        break
    if good:
        with open(rec) as f:
            for i, l in enumerate(f):
                if i in (n // 5, n // 2) and len(l) < 4000:
                    ctx.sample(json.loads(l))
    return good

def history_check(ctx, exe, profile, module, consts, timeout=800, env=None, **kw):
    rec = os.path.join(ctx.work, profile + ".ndjson")
    last = os.path.join(ctx.work, profile + ".last")
    args = [rec, last, ctx.tier, ctx.seed, profile]
    if not ctx.run_expect_ok(exe, args, profile, last, timeout, env):
        return False
    def rerun():
        rc, o, e = ctx.run(exe, [rec + ".2"] + args[1:], timeout, env)
        if rc != 0:
            return None
        return rec + ".2"
    return validate(ctx, module, consts, rec, profile, rerun, **kw)
