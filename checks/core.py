"""Shared machinery of the checks: building the harness, running TLC on the design
modules, executing scripts on the real library and judging the recorded events with the
trace specifications."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
HARNESS = os.path.join(ROOT, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"


LOCK = threading.Lock()


class ToolError(Exception):
    pass


def tier(quick, thorough):
    return thorough if THOROUGH else quick


# --------------------------------------------------------------------------- harness
def build_harness():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTFLAGS="-Awarnings")
    profile = tier("release", "full")
    r = subprocess.run(["cargo", "build", "--profile", profile, "--offline", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(BUILD, "target", profile, "cvharness")


def run_harness(binary, script, out, timeout=3000):
    """Execute a script; a crash or a hang of the library becomes an event.  Whether an operation
    hangs is decided by the harness itself, from the processor time it takes; an operation that
    allocates without end aborts at the memory limit."""
    with open(script) as f:
        ops = f.readlines()
    try:
        r = subprocess.run(["prlimit", "--as=%d" % (3 << 30), binary, script, out], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=timeout)
        code, err = r.returncode, r.stderr.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        raise ToolError("the harness did not end: " + script)
    if code == 0:
        return
    if code == -9:
        raise ToolError("the harness was killed: " + script)
    if code == 99:
        raise ToolError("bad script %s: %s" % (script, err))
    # keep the complete lines, then say what happened to the next operation
    with open(out) as f:
        done = [x for x in f.readlines() if x.endswith("\n")]
    at = json.loads(ops[len(done)]) if len(done) < len(ops) else {"op": "exit"}
    what = "hang" if code == 124 else "crash %d" % code
    with open(out, "w") as f:
        f.writelines(done)
        f.write(json.dumps({"op": "crash", "at": at, "what": what, "stderr": err}) + "\n")


# --------------------------------------------------------------------------- TLC
def tlc(module, cfg, work, env=None, workers=1, xmx="3g", timeout=3000, extra=()):
    cfgfile = os.path.join(work, module + ".cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    meta = os.path.join(work, "meta")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss256m",
           "-XX:TieredStopAtLevel=1", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-config", cfgfile,
           "-noGenerateSpecTE", "-metadir", meta, *extra, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    subprocess.run(["rm", "-rf", meta])
    return r.returncode, r.stdout


def cfg_text(consts, invariants=(), properties=(), spec="Spec", postcondition=None, extra=""):
    def val(v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, (set, frozenset)):
            return "{" + ", ".join(val(x) for x in sorted(v, key=str)) + "}"
        if isinstance(v, str):
            return '"%s"' % v
        return str(v)
    t = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if consts:
        # "<- Op" substitutes an operator
        t += "CONSTANTS\n" + "".join("  %s %s\n" % (k, v) if isinstance(v, str) and v.startswith("<- ") else
                                     "  %s = %s\n" % (k, val(v)) for k, v in consts.items())
    if invariants:
        t += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        t += "PROPERTIES " + " ".join(properties) + "\n"
    if postcondition:
        t += "POSTCONDITION %s\n" % postcondition
    return t + extra


class Check:
    """One run of one check."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", "%s-%s-%d" % (pid, TIER, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.binary = build_harness()
        self.states = self.transitions = self.traces = self.events = 0
        self.designs = []
        self.samples = []
        self.known = set()
        self.jobs = []
        self.pending = {}
        self.failures = []
        self.notes = []
        self.counts = {}

    # ---- design level
    def design(self, module, consts, invariants=(), emit=False, properties=(), workers=None, xmx="12g",
               emit_const="OutFile"):
        """Model-check a design module exhaustively; returns the emitted transitions."""
        with LOCK:
            self.ndesign = getattr(self, "ndesign", 0) + 1
            work = os.path.join(self.work, "design%d" % self.ndesign)
        os.makedirs(work, exist_ok=True)
        out = os.path.join(work, "transitions.csv")
        consts = dict(consts)
        if emit_const:
            consts[emit_const] = out if emit else ""
        t = time.time()
        code, txt = tlc(module, cfg_text(consts, invariants, properties), work, workers=workers or CPUS, xmx=xmx)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", txt)
        if code != 0 or not m or m.group(3) != "0":
            raise ToolError("the design %s %s does not satisfy its invariants (a defect of the specification):\n%s"
                            % (module, consts, txt[-3000:]))
        self.states += int(m.group(2))
        self.transitions += int(m.group(1))
        shown = {k: v for k, v in consts.items() if k != emit_const}
        self.designs.append({"module": module, "constants": {k: (sorted(v, key=str) if isinstance(v, (set, frozenset)) else v) for k, v in shown.items()},
                             "invariants": list(invariants) + list(properties), "distinct_states": int(m.group(2)),
                             "transitions": int(m.group(1)), "seconds": round(time.time() - t, 1)})
        if emit:
            with open(out) as f:
                lines = sorted(set(x.strip().replace('"', "") for x in f))
            os.remove(out)
            return [x.split("#") for x in lines]

    def designs_at_once(self, specs):
        """Several designs (argument lists of `design`) side by side."""
        with cf.ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda a: self.design(*a[0], workers=2, xmx="4g", **a[1]), specs))

    # ---- conformance
    def add(self, module, judge, histories, limit=60000):
        """Histories (lists of operations, each starting with "new") to execute and judge.
        They are spread over jobs of about equal weight."""
        self.pending.setdefault((module, tuple(sorted(judge))), []).extend(histories)
        self.limit = limit

    def _spread(self):
        for (module, judge), histories in self.pending.items():
            w = [sum(weight(o) for o in h) for h in histories]
            total = sum(w)
            parts = max(1, min(len(histories), CPUS, total // 800), total // self.limit)
            bins = [[0, []] for _ in range(parts)]
            for wi, h in sorted(zip(w, histories), key=lambda x: -x[0]):
                b = min(bins, key=lambda b: b[0])
                b[0] += wi
                b[1].append(h)
            for i, b in enumerate(bins):
                if b[1]:
                    self.jobs.append(("%s-%s.%d" % (module, "-".join(judge)[:20], i), module, judge, b[1]))
        self.pending = {}

    def _run(self, job):
        name, module, judge, histories = job
        work = os.path.join(self.work, name)
        os.makedirs(work, exist_ok=True)
        script, trace = os.path.join(work, "script.ndjson"), os.path.join(work, "trace.ndjson")
        with open(script, "w") as f:
            for h in histories:
                for o in h:
                    f.write(json.dumps(o, separators=(",", ":")) + "\n")
        run_harness(self.binary, script, trace)
        t = time.time()
        res = judge_trace(module, judge, trace, work)
        if os.environ.get("VERIF_TIMES"):
            print("%6.1fs %6d events  %s" % (time.time() - t, res["consumed"], name))
        res["name"] = name
        res["histories"] = len(histories)
        if res["rejected"]:
            res["replay"] = self._replay(name, module, judge, script, trace, res)
        else:
            with open(trace) as f:
                for i, x in enumerate(f):
                    if i >= 4:
                        break
                    if i != 1 or True:
                        res.setdefault("sample", []).append(x.strip()[:400])
        if os.environ.get("VERIF_KEEP") is None:
            subprocess.run(["rm", "-rf", work])
        return res

    def _replay(self, name, module, judge, script, trace, res):
        n = res["consumed"]            # events accepted; the next one was rejected
        with open(trace) as f:
            ev = f.readlines()
        bad = json.loads(ev[n])
        with open(script) as f:
            ops = [json.loads(x) for x in f.readlines()[:n + 1]]
        ops = ops[max(i for i, o in enumerate(ops) if o["op"] == "new"):]
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.pid, name))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "module": module, "judge": sorted(judge), "reason": res["reason"],
                       "rejected_event": bad, "script": ops,
                       "how": "python3 checks/run.py %s --replay %s" % (self.pid, path)}, f, indent=1)
        return path

    def run(self):
        """Execute and judge all histories."""
        self._spread()
        with cf.ThreadPoolExecutor(CPUS) as ex:
            # the heaviest jobs first
            jobs = sorted(self.jobs, key=lambda j: -sum(weight(o) for h in j[3] for o in h))
            for r in ex.map(self._run, jobs):
                self.traces += r["histories"]
                self.events += r["consumed"]
                self.known |= set(r["known"])
                if r["rejected"]:
                    self.failures.append(r)
                elif len(self.samples) < 3 and r.get("sample"):
                    self.samples.append({"job": r["name"], "events": r["sample"]})
        self.jobs = []

    # ---- the end
    def finish(self, assumptions=(), known_findings=(), **extra):
        for text in known_findings:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking",
            "coverage": dict({"states": self.states, "transitions": self.transitions,
                              "traces_validated_against_impl": self.traces,
                              "events_judged": self.events, "designs": self.designs,
                              "samples": self.samples}, **self.counts, **extra),
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.failures),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        subprocess.run(["rm", "-rf", self.work])
        for r in self.failures:
            print("rejected: %s (%s)" % (r["reason"], r["name"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, r["replay"]))
        if not self.failures:
            print("ok property=%s states=%d transitions=%d histories=%d events=%d wall=%.1fs"
                  % (self.pid, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 1 if self.failures else 0


def weight(o):
    """A rough estimate of what judging an operation costs."""
    q = o.get("q")
    n = o.get("w8", 1)
    return n * (1 + (len(q) if q else 0))


def judge_trace(module, judge, trace, work):
    env = {"TRACE": trace}
    code, txt = tlc(module, cfg_text({"Judge": set(judge)}, postcondition="Accepted"), work, env=env)
    m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', txt)
    if not m and re.search(r"Attempted to |is not in the domain|not enumerable", txt):
        # what was recorded is nothing the specification can make sense of
        st = re.findall(r"^State (\d+):", txt, re.M)
        why = re.search(r"Attempted to [^\n]*", txt)
        n = sum(1 for _ in open(trace))
        if st:
            return {"consumed": int(st[-1]) - 1, "total": n, "rejected": True, "known": [],
                    "reason": "the event is not one of the specification: " + (why.group(0) if why else "")}
    if not m:
        raise ToolError("TLC failed on a trace of %s (%s):\n%s" % (module, trace, txt[-3000:]))
    consumed, total = int(m.group(1)), int(m.group(2))
    rej = re.findall(r'<<\s*"REJECT",\s*(.*?)>>', txt, re.S)
    known = re.findall(r'<<"KNOWN",\s*"(.*?)",\s*"(.*?)">>', txt)
    rejected = consumed < total
    if not rejected and code != 0:
        raise ToolError("TLC exit %d on a trace of %s:\n%s" % (code, module, txt[-3000:]))
    if rejected and not rej:
        raise ToolError("trace of %s stopped at event %d without a reason:\n%s" % (module, consumed + 1, txt[-3000:]))
    return {"consumed": consumed, "total": total, "rejected": rejected,
            "reason": rej[-1].strip('"') if rej else "", "known": known}
