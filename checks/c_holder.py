"""Holders of one value or none: optional, variant, any (P31): spec/value/Holder."""
import os
from common import *

def holder(c):
    c.model_check("value/HolderMC.tla", "value/HolderMC.cfg" if c.quick else "value/HolderMCDeep.cfg")
    exe = c.build("holder", ["value/holder.cpp"])
    runs, length, shards = (60, 80, 1) if c.quick else (400, 200, 4)
    cmds = []
    for mode in ("optint", "optstr", "opttrk", "variant", "any"):
        for s in range(shards):
            tp = os.path.join(c.work, "%s-%d.nd" % (mode, s))
            cmds.append(([exe, mode, tp, str(s), str(c.seed), str(runs), str(length)], tp))
    c.validate("value/HolderTrace.tla", "value/HolderTrace.cfg", c.run_drivers(cmds, timeout=400))
    c.require_events("new", "set", "clear", "copy", "move", "swap", "compare", "orelse", "value", "write", "read", "end")

CHECKS = {"P31": holder}
