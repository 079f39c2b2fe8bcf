"""Packets and packet streams (P24): spec/io."""
import os
from common import *

def packets(c):
    c.model_check("io/PacketsMC.tla", "io/PacketsMC.cfg")
    if not c.quick:
        c.model_check("io/PacketsMC.tla", "io/PacketsMCDeep.cfg")
    cfgs = [("ps8", 0, 8), ("ps1k", 0, 1024), ("pb16", 1, 16)]
    exes = c.builds([dict(name=n, sources=["packet/driver.cpp"] + TASK_SRC, libs=TASK_LIBS, opt="-O0", flags=["-DPACKET=%d" % p, "-DRXBUF=%d" % b]) for n, p, b in cfgs])
    cmds = []; frames = []; texts = []; raws = []
    for s in range(2 if c.quick else 8):
        tp = os.path.join(c.work, "frame-%d.nd" % s); frames.append(tp)
        cmds.append(([exes[0], "frame", tp, str(c.seed * 100 + s), str(150 if c.quick else 1500), "40"], tp))
    for s in range(9 if c.quick else 36):
        n, p, b = cfgs[s % 3]
        tp = os.path.join(c.work, "stream-%d.nd" % s); (raws if p else texts).append(tp)
        cmds.append(([exes[s % 3], "stream", tp, str(c.seed * 1000 + s), str(60 if c.quick else 600), "60"], tp))
    done = c.run_drivers(cmds)
    c.validate("io/FrameTrace.tla", "io/FrameTrace.cfg", [t for t in done if t in frames])
    c.validate("io/StreamTrace.tla", "io/StreamTrace.cfg", [t for t in done if t in texts])
    c.validate("io/StreamTrace.tla", "io/BytesTrace.cfg", [t for t in done if t in raws])
    c.require_events("feed", "copy", "clear", "open", "est", "fail", "already", "accept", "raccept", "rclose", "send", "sent", "arr", "rsend", "rrecv", "closed", "close", "destroy", "look", "settled")

CHECKS = {"P24": packets}
