"""The same operations on a small and on a large collection."""
from core import tier

ACTS = {"map": ["get", "change", "entry", "mut", "wit", "range", "first"], "rb": ["get", "change", "wit", "range"],
        "paged2": ["get", "change", "wit"], "seq": ["change", "get", "wit"], "map-seq": ["change", "mut", "get", "wit"]}


def scales(c, kinds):
    for kt in kinds:
        c.add("TraceScale", [], [[{"op": "new", "mach": "scale", "kt": kt, "small": 9, "large": tier(17, 19), "w8": 60000}]
                                 + [{"op": "scale", "act": a} for a in ACTS[kt]]])
