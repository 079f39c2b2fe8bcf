"""Sorting, stepping, zipping and scoped guards (P35): spec/value/Helpers."""
import os
from common import *

def helpers(c):
    c.model_check("value/HelpersMC.tla", "value/HelpersMC.cfg" if c.quick else "value/HelpersMCDeep.cfg", must_cover=["Open", "Close"])
    exe = c.build("helpers", ["value/helpers.cpp"])
    shards, count = (4, 500) if c.quick else (8, 6000)
    cmds = []
    for s in range(shards):
        tp = os.path.join(c.work, "%d.nd" % s)
        cmds.append(([exe, tp, str(s), str(shards), str(c.seed), str(count)], tp))
    c.validate("value/HelpersTrace.tla", "value/HelpersTrace.cfg", c.run_drivers(cmds, timeout=300))
    c.require_events("sort", "step", "zip", "place", "open", "ignore", "set", "close", "end")

CHECKS = {"P35": helpers}
