#!/usr/bin/env python3
"""tools/corrupt.py Cxx...: how much of what is recorded is really judged?

Runs the check's histories on the real code, then changes one field of one recorded event at
a time and lets TLC judge the result.  Prints, per kind of event and field, how many of the
corrupted executions were rejected; a field of which none is rejected decides nothing for
this property (arguments that are echoed, or answers that another property judges)."""
import collections
import concurrent.futures as cf
import importlib
import json
import os
import random
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import core

PER = int(os.environ.get("PER", "6"))
SKIP = {"op", "msg", "w8", "max"}


def paths(x, pre=()):
    """Leaves of an event: (class of the path, path)."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in SKIP:
                yield from paths(v, pre + (k,))
    elif isinstance(x, list) and x:
        for i, v in enumerate(x):
            yield from paths(v, pre + (i,))
    else:
        yield pre


def klass(p):
    out = []
    for x in p:
        x = "*" if isinstance(x, int) else x
        if not (x == "*" and out[-2:] == ["*", "*"]):
            out.append(x)
    return ".".join(out)


def get(x, p):
    for k in p:
        x = x[k]
    return x


def put(x, p, v):
    for k in p[:-1]:
        x = x[k]
    x[p[-1]] = v


def other(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 2])
    if isinstance(v, str):
        return v + "x"
    if v == []:
        return [1]
    return None


def corrupt(job, check, tally):
    name, module, judge, histories = job
    rng = random.Random(name)
    work = os.path.join(check.work, "corrupt-" + name)
    os.makedirs(work, exist_ok=True)
    hs = sorted(rng.sample(histories, min(len(histories), 12)), key=lambda h: sum(core.weight(o) for o in h))[:8]
    hs = [h for h in hs if sum(core.weight(o) for o in h) < 4000] or hs[:1]
    tests = []
    for n, h in enumerate(hs):
        s, t = os.path.join(work, "s%d" % n), os.path.join(work, "t%d" % n)
        with open(s, "w") as f:
            f.writelines(json.dumps(o) + "\n" for o in h)
        core.run_harness(check.binary, s, t)
        ev = [json.loads(x) for x in open(t)]
        for i, e in enumerate(ev):
            if e["op"] != "new":
                for p in paths(e):
                    tests.append(((module, ",".join(judge), e["op"], klass(p)), n, i, p, ev))
    by = collections.defaultdict(list)
    for x in tests:
        by[x[0]].append(x)
    todo = []
    for k, xs in by.items():
        todo += rng.sample(xs, min(PER, len(xs)))

    def one(a):
        j, (k, n, i, p, ev) = a
        ev = json.loads(json.dumps(ev))
        v = other(get(ev[i], p), rng)
        if v is None:
            return
        put(ev[i], p, v)
        d = os.path.join(work, "x%d" % j)
        os.makedirs(d)
        with open(d + "/trace", "w") as f:
            f.writelines(json.dumps(e) + "\n" for e in ev)
        try:
            r = core.judge_trace(module, judge, d + "/trace", d)["rejected"]
        except core.ToolError:
            r = True
        subprocess.run(["rm", "-rf", d])
        tally[k][0] += r
        tally[k][1] += 1
    with cf.ThreadPoolExecutor(core.CPUS) as ex:
        list(ex.map(one, enumerate(todo)))
    subprocess.run(["rm", "-rf", work])


def main(pid):
    tally = collections.defaultdict(lambda: [0, 0])

    def run(self):
        self._spread()
        seen = collections.Counter()
        for j in self.jobs:
            if seen[j[1], j[2]] < 2:
                seen[j[1], j[2]] += 1
                corrupt(j, self, tally)
        self.jobs = []
    core.Check.run = run
    core.Check.finish = lambda self, *a, **k: 0
    importlib.import_module("props." + pid.lower()).main(core.Check(pid))
    return {"|".join(k): v for k, v in tally.items()}


def table(tally):
    for k in sorted(tally):
        r, n = tally[k]
        print("%s %-70s %d/%d" % ("     " if r == n else "-----" if r == 0 else "  -  ", k.replace("|", "  "), r, n))
    sys.stdout.flush()


total = collections.defaultdict(lambda: [0, 0])
for x in sys.argv[1:]:
    one = main(x)
    print("==", x)
    table(one)
    for k, (r, n) in one.items():
        m, _, op, field = k.split("|")
        total["|".join([m, op, field])][0] += r
        total["|".join([m, op, field])][1] += n
print("== all of them: no single judge has to see everything, but together they should")
table(total)
