"""Text functions (P27) and Unicode conversions (P29): spec/text."""
import os
from common import *

TEXT_SRC = ["text/driver.cpp", "src/core/string_utils.cpp"]

def run_text(c, modes):
    exe = c.build("text", TEXT_SRC, libs=["-lboost_locale"])
    cmds = []
    for mode, shards, depth, count in modes:
        for s in range(shards):
            tp = os.path.join(c.work, "%s-%d.nd" % (mode, s))
            cmds.append(([exe, mode, tp, str(s), str(shards), str(depth), str(c.seed), str(count)], tp))
    c.validate("text/TextTrace.tla", "text/TextTrace.cfg", c.run_drivers(cmds, timeout=300))

def text(c):
    c.model_check("text/TextMC.tla", "text/TextMC.cfg" if c.quick else "text/TextMCDeep.cfg")
    if c.quick: run_text(c, [("tokens", 2, 4, 3000), ("wild", 2, 4, 500), ("repl", 2, 5, 2000), ("fsa", 2, 4, 1500), ("misc", 2, 4, 1500)])
    else: run_text(c, [("tokens", 8, 6, 20000), ("wild", 8, 6, 20000), ("repl", 8, 7, 20000), ("fsa", 8, 6, 20000), ("misc", 8, 5, 20000)])
    c.require_events("tokens", "wild", "repl", "trim", "runs", "runs0", "fsa", "fmt", "unesc", "esc", "url", "case", "ci", "num")

def unicode(c):
    c.model_check("text/TextMC.tla", "text/UnicodeMC.cfg" if c.quick else "text/UnicodeMCDeep.cfg")
    run_text(c, [("unicode", 4, 0, 2500)] if c.quick else [("unicode", 8, 0, 30000)])
    c.require_events("u8", "u16")

CHECKS = {"P27": text, "P29": unicode}
