"""Jars and counted cookies P17 (spec/jar)."""
import os

CONFIGS = [("j0", "-DKIND=0 -DITEM=0 -DIFACE=1"), ("j1", "-DKIND=1 -DITEM=0"), ("ji", "-DKIND=0 -DITEM=2"), ("u1", "-DKIND=1 -DITEM=1"), ("s1", "-DKIND=1 -DITEM=3"),
           ("b0", "-DKIND=0 -DITEM=0 -DCOOKIE=std::uint8_t"), ("b1", "-DKIND=1 -DITEM=2 -DCOOKIE=std::uint8_t -DENUMCOOKIE=1"), ("h0", "-DKIND=0 -DITEM=2 -DIFACE=1 -DCOOKIE=std::uint16_t")]

def jar(c):
    c.model_check("jar/JarMC.tla", "jar/JarMC.cfg")
    exes = c.builds([dict(name=n, sources=["jar/driver.cpp"], flags=f.split()) for n, f in CONFIGS])
    h, l, shards = (70, 80, 1) if c.quick else (900, 120, 2)
    cmds = []
    for (n, _), exe in zip(CONFIGS, exes):
        for s in range(shards):
            tp = os.path.join(c.work, "%s-%d.nd" % (n, s))
            cmds.append(([exe, "rand", tp, str(c.seed * 1000 + s + 17), str(h), str(l)], tp))
    c.validate("jar/JarTrace.tla", "jar/JarTrace.cfg", c.run_drivers(cmds))
    c.require_events("insert", "full", "next", "unnext", "add", "addbad", "remove", "refuse", "query", "set", "clear", "copy", "move", "hold", "rcopy", "rmove", "rswap", "drop", "rcmp")

CHECKS = {"P17": jar}
