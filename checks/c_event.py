"""Events (P01), callbacks queued for another thread (P02): spec/event."""
import os
from common import *

REUSE = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:quarantine_size_mb=0:thread_local_quarantine_size_kb=0"}

def histories(c, modes, hist, length, shards):
    exe = c.build("ev", ["event/driver.cpp"] + EVENT_SRC + UUID_SRC, libs=UUID_LIBS, opt="-O0")
    tr = []
    for env in (None, REUSE):   # the second half reuses addresses at once
        cmds = []
        for s in range(shards // 2):
            m = modes[s % len(modes)]
            tp = os.path.join(c.work, "ev-%s-%d.nd" % ("b" if env else "a", s))
            cmds.append(([exe, "rand", tp, str(c.seed * 1000 + s + (500 if env else 0)), str(hist), str(length), str(m)], tp))
        tr += c.run_drivers(cmds, env=env)
    c.validate("event/EventsTrace.tla", "event/EventsTrace.cfg", tr)

def models(c):
    c.model_check("event/EventsMC.tla", "event/EventsMCQuick.cfg")
    if not c.quick:
        c.model_check("event/EventsMC.tla", "event/EventsMCTwo.cfg")
        c.model_check("event/EventsMC.tla", "event/EventsMCDeep.cfg")

def events(c):
    models(c)
    h = 300 if c.quick else 3000
    histories(c, [0, 0, 1], h, 80, 8 if c.quick else 16)
    c.require_events("newev", "delev", "copyev", "assignev", "sub", "remove", "drop", "sclear", "sadd", "scopy", "trig", "call", "ret", "throw", "endtrig", "accept")

def queues(c):
    models(c)
    h = 300 if c.quick else 3000
    histories(c, [2, 1, 2], h, 80, 8 if c.quick else 16)
    c.require_events("atrig", "trig", "call", "throw", "pump", "endpump", "delev", "sclear", "drop")

CHECKS = {"P01": events, "P02": queues}
