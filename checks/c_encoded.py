"""Written forms of values (P34): spec/text/Encoded."""
import os
from common import *

def encoded(c):
    c.model_check("text/EncodedMC.tla", "text/EncodedMC.cfg" if c.quick else "text/EncodedMCDeep.cfg")
    exe = c.build("encoded", ["text/encoded.cpp"] + UUID_SRC, libs=UUID_LIBS)
    shards, count = (4, 400) if c.quick else (8, 4000)
    cmds = []
    for s in range(shards):
        tp = os.path.join(c.work, "%d.nd" % s)
        cmds.append(([exe, tp, str(s), str(shards), str(c.seed), str(count)], tp))
    c.validate("text/EncodedTrace.tla", "text/EncodedTrace.cfg", c.run_drivers(cmds, timeout=300))
    c.require_events("uleb", "sleb", "uuid", "uuidread", "uuidorder", "generated", "version", "versionread", "versionorder", "dump", "left", "end")

CHECKS = {"P34": encoded}
