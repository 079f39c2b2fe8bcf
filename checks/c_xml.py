"""XML documents (P26): spec/file/XmlDoc."""
import os
from common import *

def xml(c):
    c.model_check("file/XmlMC.tla", "file/XmlMC.cfg" if c.quick else "file/XmlMCDeep.cfg", must_cover=False)
    exe = c.build("xml", ["file/xml.cpp"])
    modes = [("texts", 4, 3, 0), ("random", 3, 0, 2500), ("edit", 4, 40, 40)] if c.quick else \
            [("texts", 8, 4, 0), ("random", 8, 0, 15000), ("edit", 8, 60, 400)]
    cmds = []
    for mode, shards, depth, count in modes:
        for s in range(shards):
            tp = os.path.join(c.work, "%s-%d.nd" % (mode, s))
            cmds.append(([exe, mode, tp, str(s), str(shards), str(depth), str(c.seed), str(count)], tp))
    c.validate("file/XmlTrace.tla", "file/XmlTrace.cfg", c.run_drivers(cmds, timeout=400))
    c.require_events("parse", "read", "new", "reset", "element", "text", "comment", "ensure", "root", "erase", "clear", "content", "attribute", "unset", "look", "write")

CHECKS = {"P26": xml}
