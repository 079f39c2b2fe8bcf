"""Uniform resource identifiers (P33): spec/text/Uri."""
import os
from common import *

def uri(c):
    c.model_check("text/UriMC.tla", "text/UriMC.cfg" if c.quick else "text/UriMCDeep.cfg")
    exe = c.build("uri", ["text/uri.cpp", "src/io/uri.cpp"])
    shards, count, length = (4, 1500, 3) if c.quick else (8, 12000, 4)
    cmds = []
    for s in range(shards):
        tp = os.path.join(c.work, "%d.nd" % s)
        cmds.append(([exe, tp, str(s), str(shards), str(c.seed), str(count), str(length)], tp))
    c.validate("text/UriTrace.tla", "text/UriTrace.cfg", c.run_drivers(cmds, timeout=300))
    c.require_events("parse", "written", "set", "authority", "copy", "code", "end")

CHECKS = {"P33": uri}
