"""Reference counting (P09), object lifetime (P08): spec/ref."""
import os
from common import *

def run(c, driver, spec, hist, length, shards, sources=(), flags=(), libs=(), name="d", timeout=90, opt="-O1"):
    exe = c.build(name, [driver] + list(sources), flags=flags, libs=libs, opt=opt)
    cmds = []
    for s in range(shards):
        tp = os.path.join(c.work, "%s-%d.nd" % (name, s))
        cmds.append(([exe, "rand", tp, str(c.seed * 1000 + s + 7), str(hist), str(length)], tp))
    c.validate(spec + ".tla", spec + ".cfg", c.run_drivers(cmds, timeout=timeout))

def refcount(c):
    c.model_check("ref/RefCountMC.tla", "ref/RefCountMCQuick.cfg" if c.quick else "ref/RefCountMC.cfg")
    h, l = (60, 120) if c.quick else (1000, 150)
    run(c, "ref/driver.cpp", "ref/RefCountTrace", h, l, 8)
    c.require_events("new", "copy", "move", "swap", "alias", "resetto", "refer", "detach", "release", "adopt", "unpin", "observe", "upgrade", "cast", "badcast", "wderef")

def lifetime(c):
    c.model_check("ref/LifetimeMC.tla", "ref/LifetimeMC.cfg")
    h, l = (80, 70) if c.quick else (1500, 90)
    run(c, "lifetime/driver.cpp", "ref/LifetimeTrace", h, l, 8, sources=TASK_SRC, libs=TASK_LIBS, opt="-O0")
    c.require_events("new", "copy", "assign", "alive", "begin", "noteing", "noteed", "refused", "end", "flag", "fcopy", "fdrop")

CHECKS = {"P09": refcount, "P08": lifetime}
