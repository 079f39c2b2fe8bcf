"""JSON documents (P25): spec/file/JsonDoc."""
import os
from common import *

def json(c):
    c.model_check("file/JsonMC.tla", "file/JsonMC.cfg" if c.quick else "file/JsonMCDeep.cfg", must_cover=False)
    c.model_check("file/JsonMC.tla", "file/JsonEditMC.cfg" if c.quick else "file/JsonEditMCDeep.cfg", must_cover=False)
    exe = c.build("json", ["file/json.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
    modes = [("texts", 3, 4, 0), ("numbers", 1, 5, 0), ("strings", 2, 4, 0), ("random", 3, 0, 6000), ("edit", 3, 40, 150)] if c.quick else \
            [("texts", 8, 5, 0), ("numbers", 8, 6, 0), ("strings", 8, 5, 0), ("random", 8, 0, 40000), ("edit", 8, 60, 2000)]
    cmds = []
    for mode, shards, depth, count in modes:
        for s in range(shards):
            tp = os.path.join(c.work, "%s-%d.nd" % (mode, s))
            cmds.append(([exe, mode, tp, str(s), str(shards), str(depth), str(c.seed), str(count)], tp))
    c.validate("file/JsonTrace.tla", "file/JsonTrace.cfg", c.run_drivers(cmds, timeout=400))
    c.require_events("parse", "read", "root", "assign", "member", "push", "clear", "name", "look", "path", "walk", "write")

CHECKS = {"P25": json}
