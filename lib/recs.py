"""Mechanism A: recorded calls of the real code, validated record by record against the specification."""
import json, os, re
from vf import *

CFG = """SPECIFICATION RecSpec
CONSTANT Ok <- %s
INVARIANT RecordsAllowed
CHECK_DEADLOCK FALSE
"""

def nth_line(path, k):
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if i == k:
                return l.strip()
    return None

def confirmed(rerun, k, line, tlc):
    """Does the mismatch repeat?  Code that reads freed or uninitialized memory may do something else each time, so another mismatch
    or a crash in one of the next runs confirms it as well."""
    for i in range(3):
        f = rerun()
        if f is None or nth_line(f, k) == line or not tlc(f).ok:
            return True
    return False

def validate(ctx, module, okop, rec, what, workers=NCPU, heap="8g", timeout=700, rerun=None):
    """TLC evaluates the specification on every record. Returns True if all are allowed."""
    n = sum(1 for _ in open(rec))
    if n == 0:
        raise MachineryError("no records for " + what)
    r = ctx.tlc(module, CFG % okop, env={"REC_FILE": rec}, workers=workers, heap=heap, timeout=timeout)
    if r.ok:
        ctx.cov["states"] += r.distinct
        ctx.cov["transitions"] += r.generated
        ctx.cov["traces_validated_against_impl"] += n
        with open(rec) as f:
            for i, l in enumerate(f):
                if i in (n // 7, n // 2) and len(l) < 3000:
                    ctx.sample(json.loads(l))
        return True
    m = re.search(r'<<"MISMATCH", (\d+)>>', r.out)
    if "RecordsAllowed" in r.invariant and m:
        k = int(m.group(1))
        line = nth_line(rec, k)
        if rerun and not confirmed(rerun, k, line, lambda f: ctx.tlc(module, CFG % okop, env={"REC_FILE": f}, workers=workers, heap=heap, timeout=timeout)):
            raise MachineryError("recorded call %d is not reproducible:\n%s" % (k, line[:2000]))
        ctx.violate("%s: the real code returned what the specification (%s!%s) does not allow: %s" % (what, module, okop, line[:1500]),
                    {"record": json.loads(line), "module": module, "operator": okop})
        return False
    raise MachineryError("TLC failed on records of %s:\n%s" % (what, r.tail(60)))

def record_check(ctx, exe, fam, module, okop, timeout=800):
    rec = os.path.join(ctx.work, fam + ".ndjson")
    last = os.path.join(ctx.work, fam + ".last")
    if not ctx.run_expect_ok(exe, [rec, last, ctx.tier, ctx.seed, fam], fam, last, timeout):
        return False
    def rerun():
        rec2 = rec + ".2"
        rc, o, e = ctx.run(exe, [rec2, last, ctx.tier, ctx.seed, fam], timeout)
        if rc != 0:
            return None
        return rec2
    return validate(ctx, module, okop, rec, fam, rerun=rerun)
