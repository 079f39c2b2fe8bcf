"""Associative containers: the map/set part of P19 and mutable sets (P28), spec/assoc."""
import os
from c_seq import poly_seq

TRACE = ("assoc/AssocTrace.tla", "assoc/AssocTrace.cfg")
NAMES = ["map", "multimap", "set", "multiset", "umap", "ummap", "flat", "mset", "mmset"]

def run_assoc(c, configs, hist, length, shards):
    jobs = [dict(name="a_" + n, sources=["assoc/driver.cpp"], flags=fl) for n, fl in configs]
    exes = c.builds(jobs)
    cmds = []
    for (n, _), exe in zip(configs, exes):
        for s in range(shards):
            tp = os.path.join(c.work, "a-%s-%d.nd" % (n, s))
            cmds.append(([exe, "rand", tp, str(c.seed * 1000 + s + 31), str(hist), str(length)], tp))
    c.validate(*TRACE, c.run_drivers(cmds))

def cfg(kind, iface, payload, strkey):
    return ("%s%d%s%d" % (NAMES[kind], iface, payload[0], strkey), ["-DKIND=%d" % kind, "-DIFACE=%d" % iface, "-DPAYLOAD=" + payload, "-DSTRKEY=%d" % strkey])

def models(c):
    for m in ("TRUE", "FALSE"):
        c.model_check("assoc/AssocMC.tla", "assoc/AssocMC_%s.cfg" % m)

def strings(c):
    exes = c.builds([dict(name="strings", sources=["strings/driver.cpp"]), dict(name="stringsn", sources=["strings/driver.cpp"], san=False)])
    cmds = []
    for kind in ("string", "quick"):
        for s in range(2 if c.quick else 8):
            tp = os.path.join(c.work, "%s-%d.nd" % (kind, s))
            cmds.append(([exes[s % 2], kind, tp, str(c.seed * 1000 + s), str(120 if c.quick else 2500), "60"], tp))
    c.validate("text/StringsTrace.tla", "text/StringsTrace.cfg", c.run_drivers(cmds, timeout=300))
    c.require_events("append", "splice", "replace", "put", "cmp", "qcmp", "read", "swap")

def poly(c):
    strings(c)
    poly_seq(c)
    models(c)
    configs = [cfg(0, 0, "Tracked", 0), cfg(0, 1, "int", 1), cfg(1, 0, "int", 1), cfg(1, 1, "Tracked", 0), cfg(2, 0, "Tracked", 0), cfg(2, 1, "int", 0),
               cfg(4, 0, "Tracked", 0), cfg(4, 1, "int", 1), cfg(5, 0, "int", 1), cfg(5, 1, "Tracked", 0), cfg(6, 0, "int", 0), cfg(6, 1, "Tracked", 0)]
    h, l, sh = (70, 50, 1) if c.quick else (900, 80, 3)
    run_assoc(c, configs, h, l, sh)
    c.require_events("find", "bound", "index", "emplace", "build", "erase_range", "cmp", "less")

def mutable(c):
    models(c)
    configs = [cfg(7, 0, "Tracked", 0), cfg(7, 0, "int", 0), cfg(8, 0, "Tracked", 0), cfg(8, 0, "int", 0)]
    h, l, sh = (250, 60, 2) if c.quick else (1200, 100, 8)
    run_assoc(c, configs, h, l, sh)
    c.require_events("find", "bound", "build", "erase_range", "erase_key", "set", "rread")

CHECKS = {"P19": poly, "P28": mutable}
