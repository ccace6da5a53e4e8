"""The known-findings file."""
import os
import re

from core import ROOT


def findings(pid):
    """{kind: (rule, text)} of the recorded findings of a property."""
    out = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) rule=(\S+) kinds=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                for k in m.group(3).split(","):
                    out[k] = (m.group(2), m.group(4))
    return out


def report(pid, seen):
    """One text per finding that showed in this run; `seen` is a set of (kind, rule)."""
    texts = {}
    for kind, (rule, text) in findings(pid).items():
        if (kind, rule) in seen:
            texts.setdefault((rule, text), []).append(kind)
    return ["%s [%s]" % (text, ", ".join(sorted(kinds))) for (rule, text), kinds in sorted(texts.items())]
