"""Shared machinery: TLC runs, trace validation, evidence, verdicts."""
import hashlib
import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")   # only development runs set it
NPROC = 8
NANO = 1000000000


class MachineryError(Exception):
    pass


def fx(x):
    """float -> [hi, lo] with x = hi + lo * 1e-9, as the Num module expects."""
    try:
        x = float(x)
    except Exception:
        return [-2000000000, 0]
    if x != x:
        return [-2000000000, 0]
    if x > 1.9e9:
        return [1900000000, 0]
    if x < -1.9e9:
        return [-1900000000, 0]
    hi = math.floor(x)
    lo = int(round((x - hi) * NANO))
    if lo >= NANO:
        hi += 1
        lo -= NANO
    return [int(hi), int(lo)]


def fxs(seq):
    return [fx(x) for x in seq]


def fp(obj):
    """31 bit fingerprint of a json-able value (floats rounded to 12 significant digits)."""

    def norm(o):
        if isinstance(o, bool) or o is None or isinstance(o, str) or isinstance(o, int):
            return o
        if isinstance(o, float):
            if o != o:
                return "nan"
            return "%.9e" % (o + 0.0 if o != 0 else 0.0)
        if isinstance(o, dict):
            return {k: norm(v) for k, v in sorted(o.items())}
        return [norm(v) for v in o]

    h = hashlib.sha256(json.dumps(norm(obj), sort_keys=True).encode()).digest()
    return int.from_bytes(h[:4], "big") & 0x3FFFFFFF


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def short(e):
    return (type(e).__name__ + ": " + str(e)).replace("\n", " ")[:160]


def guarded(args):
    """Run one case; whatever happens, return a list of events."""
    func, case, limit = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    devnull = None
    try:
        evs = func(case)
        signal.alarm(0)
        return evs
    except Hang:
        return [{"op": "crash", "case": str(case)[:300], "exc": "no answer after %ds" % limit}]
    except MachineryError:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[::-1][:5])
        return [{"op": "crash", "case": str(case)[:300], "exc": short(e) + " @ " + where}]
    finally:
        signal.alarm(0)
        try:
            import matplotlib.pyplot as plt

            plt.close("all")
        except Exception:
            pass


def _quiet_worker():
    # children write nothing: the code under test prints progress
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.extra = {}
        self.assumptions = []
        self.n_tlc = 0
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        self.known = [k for k in kf["findings"] if k["property"] == pid and k["status"] == "known"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ replay
    def replay(self, func, cases, limit=120, chunk=1):
        """Run func(case) -> events in worker processes. Order preserved."""
        args = [(func, c, limit) for c in cases]
        if not args:
            return []
        sys.stdout.flush()
        with mp.get_context("fork").Pool(NPROC, initializer=_quiet_worker, maxtasksperchild=200) as pool:
            res = pool.map_async(guarded, args, chunksize=chunk)
            try:
                return res.get(timeout=self.pick(780, 7200))
            except mp.TimeoutError:
                pool.terminate()
                return [[{"op": "crash", "case": "pool", "exc": "no answer: the replay did not terminate"}]]

    # --------------------------------------------------------------------- TLC
    def tlc(self, module, constants=None, spec="Spec", invariants=(), properties=(), constraint=None,
            view=None, postcondition=None, files=None, workers=4, simulate=None, depth=None,
            timeout=600, extra_cfg="", deadlock=False):
        self.n_tlc += 1
        d = os.path.join(self.scratch, "tlc%d" % self.n_tlc)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(content)
        cfg = "SPECIFICATION %s\n" % spec
        root = module
        if constants:
            # any TLA+ expression is allowed: constants are defined in a generated root module
            root = "MC" + module
            with open(os.path.join(d, root + ".tla"), "w") as fh:
                fh.write("---- MODULE %s ----\nEXTENDS %s\n" % (root, module))
                for k, v in constants.items():
                    fh.write("const_%s == %s\n" % (k, v))
                fh.write("====\n")
            for k in constants:
                cfg += "CONSTANT %s <- const_%s\n" % (k, k)
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        for i in properties:
            cfg += "PROPERTY %s\n" % i
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        if view:
            cfg += "VIEW %s\n" % view
        if postcondition:
            cfg += "POSTCONDITION %s\n" % postcondition
        cfg += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
        cfg += extra_cfg
        with open(os.path.join(d, "run.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["tlc", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
               "-noGenerateSpecTE", "-lncheck", "final"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 20), "-seed", str(self.seed)]
        cmd += [root + ".tla"]
        env = dict(os.environ)
        env.setdefault("JAVA_TOOL_OPTIONS", "-Xmx3g -Xss16m")
        try:
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on %s" % module)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if simulate and not m:
            m = re.findall(r"(\d+) states checked", out) or re.findall(r"Progress: (\d+) states", out)
            gen = dist = int(m[-1]) if m else 0
        self.states += dist
        self.transitions += gen
        if r.returncode != 0:
            raise MachineryError("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, out[-3000:]))
        lines = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"'):
                try:
                    line = json.loads(line)
                except Exception:
                    line = line[1:-1]
            lines.append(line)
        shutil.rmtree(d, ignore_errors=True)
        return lines

    def cases(self, module, **kw):
        """Enumerate or simulate a specification; return the records it emits with CASE."""
        seen = {line[5:] for line in self.tlc(module, **kw) if line.startswith("CASE ")}
        res = [json.loads(s) for s in sorted(seen)]      # whatever the order in which TLC found them
        if not res:
            raise MachineryError("no case generated by " + module)
        return res

    def validate(self, module, traces, constants=None, files=None, describe=None, batch=60000, quiet=False, broken=True):
        """Check recorded traces against the trace specification `module`.

        traces: list of (list of events). A trace specification reads trace.ndjson, one event per line;
        events carry t (trace number) and i (position). The verdict is total: every event is judged, and
        the specification prints one REJECT line per event that breaks clauses."""
        flat = []
        for t, tr in enumerate(traces):
            for i, e in enumerate(tr):
                e = dict(e)
                e["t"], e["i"] = t, i
                flat.append(e)
        rejected = []
        k = 0
        while k < len(flat):
            j = min(len(flat), k + batch)
            while j < len(flat) and flat[j]["i"] != 0:
                j += 1
            part = flat[k:j]
            fl = {"trace.ndjson": "\n".join(json.dumps(e) for e in part) + "\n"}
            fl.update(files or {})
            lines = self.tlc(module, constants=constants, files=fl, workers=1, timeout=self.pick(700, 7200),
                             extra_cfg="CONSTANT Broken <- Verdict\n" if broken else "")
            done = [l for l in lines if l.startswith("TRACEDONE")]
            if done != ["TRACEDONE %d" % len(part)]:
                raise MachineryError("trace not consumed: %s / %d\n%s" % (done, len(part), "\n".join(lines[-30:])))
            for l in lines:
                if l.startswith("REJECT "):
                    r = json.loads(l[7:])
                    rejected.append((part[r["l"] - 1], r["clauses"]))
            k = j
        if not quiet:
            self.traces += len(traces)
            self.events += len(flat)
            for e, clauses in rejected:
                self.report(e, clauses, describe(e, traces[e["t"]]) if describe else None)
        return rejected

    def must_reject(self, module, traces, **kw):
        """Binding self-test: the trace specification has to reject a corrupted record."""
        if not self.validate(module, traces, quiet=True, **kw):
            raise MachineryError("corrupted trace accepted by " + module)
        self.extra["corrupted_traces_rejected"] = self.extra.get("corrupted_traces_rejected", 0) + 1

    # ------------------------------------------------------------------ verdict
    def report(self, event, clauses, what=None):
        what = what or json.dumps(event)[:1500]
        key = event.get("key", "")
        for kf in self.known:
            if kf["key"] == key and set(clauses) <= set(kf["clauses"]):
                if kf["id"] not in [k["id"] for k in self.known_hit]:
                    self.known_hit.append(kf)
                return
        self.violations.append({"clauses": sorted(clauses), "event": event, "what": what})

    def sample(self, x, n=4):
        if len(self.samples) < n:
            self.samples.append(x)

    def finish(self, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_judged": self.events,
               "samples": self.samples[:6] or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        stale = os.path.join(VERIF, "evidence", self.pid + ".violation.json")
        if os.path.exists(stale):
            os.remove(stale)
        if self.violations:
            path = os.path.join(VERIF, "evidence", self.pid + ".violation.json")
            with open(path, "w") as fh:
                json.dump(self.violations[:200], fh, indent=1)
            for v in self.violations[:5]:
                print("  broken: %s  %s" % (",".join(v["clauses"]), v["what"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s: %d spec states, %d traces, %d events, %d violations, %.1fs"
              % (self.pid, self.tier, self.states, self.traces, self.events, len(self.violations),
                 time.time() - self.t0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0


def call(f, *a, **k):
    """(True, value) or (False, exception)"""
    try:
        return True, f(*a, **k)
    except Hang:
        raise
    except Exception as e:
        return False, e
