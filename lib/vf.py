"""Shared machinery of the checks: building the real code, running harnesses, running TLC, reporting.

Outcomes of a check (nothing else is an outcome):
  exit 0                      the property held on everything explored
  exit 1 + VIOLATION line     the real code was shown to break the property (confirmed by a re-run)
  exit 2                      the machinery failed (build error, TLC error, ...): no verdict
"""
import json, os, re, shutil, subprocess, sys, time, hashlib, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
REPO_SRCS = ["ThreadPool.cc", "Trigger.cc", "case_ascii.cc", "cat.cc", "escape.cc", "replace.cc",
             "string_util.cc", "to_number.cc", "trim.cc"]


class MachineryError(Exception):
    pass

class Stop(Exception):
    """A violation after which there is nothing more to explore."""


def log(*a):
    print("[vf]", *a, file=sys.stderr, flush=True)


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out):
            pass
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.completed = "Model checking completed" in out or "The number of states generated" in out
        self.deadlock = "Deadlock reached" in out
        self.invariant = re.findall(r"Invariant (\S+) is violated", out)
        self.action_prop = re.findall(r"Action property (\S+) is violated", out)
        self.temporal = "Temporal properties were violated" in out or "Temporal property" in out and "violated" in out
        self.post = "Post condition" in out or "POSTCONDITION" in out and "violated" in out or \
            "Postcondition" in out and ("violated" in out or "false" in out.lower())
        self.ok = rc == 0 and "No error has been found" in out
        self.prints = [l for l in out.splitlines() if l.startswith("<<") or l.startswith('"')]

    def tail(self, n=40):
        return "\n".join(self.out.splitlines()[-n:])


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.work = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []     # list of (text, replay-data)
        self.known_seen = []
        self.known = load_known(prop)
        self.extra = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.tier == "quick" else t

    # ---------------------------------------------------------------- build
    def compile(self, name, srcs, repo_srcs=(), flags=(), san=True, std="c++14", opt="-O1", cxx="g++", link=(), _all=False):
        """Compile harness sources together with the named /repo/src files; returns the executable."""
        objs, jobs = [], []
        base = [cxx, "-std=" + std, opt, "-g1", "-w", "-pthread", "-I" + os.path.join(REPO, "include"), "-I" + HARN,
                "-DGUL_USING_STATIC_LIB_OR_OBJECTS"] + (SAN if san else []) + list(flags)
        for s in list(srcs):
            p = s if os.path.isabs(s) else os.path.join(HARN, s)
            jobs.append((p, os.path.join(self.work, name + "-" + os.path.basename(p) + ".o")))
        for s in repo_srcs:
            jobs.append((os.path.join(REPO, "src", s), os.path.join(self.work, name + "-repo-" + s + ".o")))

        def one(j):
            return subprocess.run(base + ["-c", j[0], "-o", j[1]], capture_output=True, text=True)
        with ThreadPoolExecutor(NCPU) as ex:
            for j, r in zip(jobs, ex.map(one, jobs)):
                if r.returncode != 0:
                    self.api_broken(j[0], base, r.stderr)
                    raise MachineryError("compile failed: %s\n%s" % (j[0], r.stderr[-4000:]))
                objs.append(j[1])
        exe = os.path.join(self.work, name)
        r = subprocess.run(base + objs + ["-o", exe] + list(link), capture_output=True, text=True)
        rest = sorted(set(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cc")) - set(repo_srcs) - {"version.cc"})
        if r.returncode != 0 and rest and not _all:
            return self.compile(name, srcs, list(repo_srcs) + rest, flags, san, std, opt, cxx, link, _all=True)
        if r.returncode != 0:
            raise MachineryError("link failed: %s\n%s" % (name, r.stderr[-4000:]))
        return exe

    def api_broken(self, src, base, err):
        """A harness uses nothing but the public interface. If the headers themselves are fine but such a use does not compile any more
        (twice, with an error that the compiler locates), the code does not provide what the property promises."""
        if not src.startswith(HARN) or not re.search(r"^\S+:\d+(:\d+)?: error: ", err, re.M):
            return
        t = os.path.join(self.work, "headers.cc")
        open(t, "w").write("#include <gul14/gul.h>\nint main() {}\n")
        if subprocess.run(base + ["-fsyntax-only", t], capture_output=True).returncode != 0:
            return
        if subprocess.run(base + ["-fsyntax-only", src], capture_output=True).returncode == 0:
            return
        first = "\n".join([l for l in err.splitlines() if ": error: " in l][:3])
        self.violate("a use of the public interface that the property promises does not compile any more (%s): %s" % (os.path.basename(src), first),
                     {"source": src, "compiler": err[-6000:]})
        raise Stop()

    # ---------------------------------------------------------------- run
    def run(self, exe, args=(), timeout=240, env=None, stdin=None):
        e = dict(os.environ)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=9000:exitcode=99")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
        e["LC_ALL"] = "C"
        if env:
            e.update(env)
        try:
            r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, timeout=timeout, env=e, stdin=stdin)
            return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as x:
            return "timeout", (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")

    def run_expect_ok(self, exe, args, what, lastfile=None, timeout=240, env=None):
        """Run a harness on the real code. A crash, sanitizer report or hang of the real code is a violation,
        provided it repeats.  `lastfile` is where the harness notes the call in progress."""
        rc, out, err = self.run(exe, args, timeout=timeout, env=env)
        if rc == 0:
            return True
        if rc == 3:
            raise MachineryError("harness %s reported an internal error:\n%s" % (what, err[-3000:]))
        if rc == "timeout":      # a call that does not return is ended after 60 s by the harness itself
            raise MachineryError("harness %s takes more than %s s" % (what, timeout))
        if lastfile and os.path.exists(lastfile):
            shutil.copy(lastfile, lastfile + ".1")
        rc2, out2, err2 = self.run(exe, args, timeout=timeout, env=env)
        if rc2 in (0, 3, "timeout"):
            # Behaviour that depends on freed or uninitialized memory need not repeat; a sanitizer report or a fatal signal is proof enough.
            if rc not in (99, -6, -11, -8, -7, -4):
                raise MachineryError("harness %s failed once (%s) and then passed:\n%s" % (what, rc, err[-3000:]))
            rc2, err2 = rc, err
            if lastfile:
                lastfile += ".1"
        last = ""
        if lastfile and os.path.exists(lastfile):
            last = open(lastfile, "rb").read().split(b"\0")[0].decode("utf8", "replace")[:4000]
        self.violate("the real code crashed, hung or corrupted memory (%s, exit %s) while executing: %s" % (what, rc2, last),
                     {"harness": what, "args": [str(a) for a in args], "exit": rc2, "last_call": last, "stderr": err2[-6000:]})
        return False

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=NCPU, timeout=600, extra=(), heap="4g", jvm=(), name=None):
        md = os.path.join(self.work, "tlc-%s-%d" % (name or module, random.getrandbits(40)))
        os.makedirs(md)
        if "\n" in cfg:
            cf = os.path.join(md, "m.cfg")
            open(cf, "w").write(cfg)
        else:
            cf = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)), "-Xmx" + heap, "-Xss16m"] + list(jvm) + \
              ["-cp", TLAJAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-config", cf] + \
              list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        res = TlcResult(r.returncode, r.stdout + r.stderr)
        shutil.rmtree(md, ignore_errors=True)
        return res

    def model_check(self, module, cfg, what, **kw):
        """Exhaustive check of the specification itself. A failure here is a failure of the model, not of the code."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise MachineryError("specification check failed (%s / %s):\n%s" % (module, what, r.tail(80)))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("spec_checks", []).append({"what": what, "module": module, "distinct": r.distinct, "generated": r.generated})
        return r

    # ---------------------------------------------------------------- verdict
    def violate(self, text, replay):
        for k in self.known:
            if k.get("match") and re.search(k["match"], text):
                if k["what"] not in self.known_seen:
                    self.known_seen.append(k["what"])
                return
        self.violations.append((text, replay))

    def sample(self, s):
        if len(self.cov["samples"]) < 8:
            self.cov["samples"].append(s)

    def finish(self):
        wall = round(time.time() - self.t0, 2)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": dict(self.cov, **self.extra),
              "assumptions": self.assumptions, "wall_s": wall, "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(p, "w") as f:
                json.dump([{"violation": t, "replay": r} for t, r in self.violations], f, indent=1)
            for t, _ in self.violations[:5]:
                print("# " + t.replace("\n", " ")[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        else:
            print("OK property=%s tier=%s seed=%d wall=%.1fs states=%d transitions=%d impl_traces=%d" % (
                self.prop, self.tier, self.seed, wall, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"]))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]
