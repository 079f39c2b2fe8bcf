"""Components used by several threads at once, under a deterministic scheduler (harness/conc/sched.cpp): spec/conc."""
import os
from common import *

THREAD_SRC = ["src/task/waitable_event.cpp", "src/task/thread.cpp"]
THREAD_LIBS = ["-lboost_chrono", "-lboost_system"]

def run(c, name, driver, spec, sources, libs, hist, length, shards, modes=(None,), flags=()):
    exe = c.build(name, [driver] + sources, libs=libs, opt="-O1", conc=True, flags=flags)
    cmds = []
    for s in range(shards):
        tp = os.path.join(c.work, "%s-%d.nd" % (name, s))
        m = modes[s % len(modes)]
        cmds.append(([exe, "rand", tp, str(c.seed * 1000 + s), str(hist), str(length)] + ([] if m is None else [str(m)]), tp))
    tr = c.run_drivers(cmds, timeout=400)
    c.validate("conc/%s.tla" % spec, "conc/%s.cfg" % spec, tr, queue_dfs=True)

def mutex(c):
    c.model_check("conc/MutexMC.tla", "conc/MutexMC.cfg")
    c.model_check("conc/MutexAlgo.tla", "conc/MutexAlgo.cfg", must_cover=False)
    c.model_check("conc/MutexAlgo.tla", "conc/MutexAlgoLive.cfg", must_cover=False)
    run(c, "mx", "conc/mutex_driver.cpp", "MutexTrace", MUTEX_SRC, UUID_LIBS, 250 if c.quick else 4000, 12, 8 if c.quick else 16)
    c.require_events("call", "ret", "done")

def waitevent(c):
    c.model_check("conc/WaitEventMC.tla", "conc/WaitEventMC.cfg")
    c.model_check("conc/WaitEventAlgo.tla", "conc/WaitEventAlgo.cfg", must_cover=False)
    if not c.quick:
        c.model_check("conc/WaitEventMC.tla", "conc/WaitEventMCTwo.cfg")
    run(c, "we", "conc/waitevent_driver.cpp", "WaitEventTrace", THREAD_SRC, THREAD_LIBS, 250 if c.quick else 4000, 8, 8 if c.quick else 16)
    c.require_events("call", "ret", "post", "ready", "done", "stuck")

def thread(c):
    c.model_check("conc/ThreadLifeMC.tla", "conc/ThreadLifeMCQuick.cfg")
    c.model_check("conc/ThreadLifeMC.tla", "conc/ThreadLifeMCFail.cfg", must_cover=False)
    if not c.quick:
        c.model_check("conc/ThreadLifeMC.tla", "conc/ThreadLifeMC.cfg")
    run(c, "th", "conc/thread_driver.cpp", "ThreadLifeTrace", THREAD_SRC, THREAD_LIBS, 800 if c.quick else 6000, 8, 8 if c.quick else 16)
    c.require_events("call", "ret", "begin", "end", "throw", "post", "done")

def pool(c):
    c.model_check("conc/ThreadPoolMC.tla", "conc/ThreadPoolMC.cfg", must_cover=False)
    c.model_check("conc/ThreadPoolMC.tla", "conc/ThreadPoolMCGrow.cfg", must_cover=False)
    if not c.quick:
        c.model_check("conc/ThreadPoolMC.tla", "conc/ThreadPoolMCDeep.cfg", must_cover=False)
    run(c, "tp", "conc/pool_driver.cpp", "ThreadPoolTrace", THREAD_SRC + ["src/task/thread_pool.cpp"], THREAD_LIBS, 500 if c.quick else 5000, 8, 8 if c.quick else 16, modes=(0, 0, 0, 1))
    c.require_events("call", "ret", "begin", "end", "apply", "elem", "applied", "done")

def logger(c):
    c.model_check("conc/LoggerMC.tla", "conc/LoggerMC.cfg", must_cover=False)
    if not c.quick:
        c.model_check("conc/LoggerMC.tla", "conc/LoggerMCCat.cfg", must_cover=False)
    run(c, "lg", "conc/logger_driver.cpp", "LoggerTrace", EVENT_SRC + UUID_SRC, UUID_LIBS, 250 if c.quick else 3000, 12, 8 if c.quick else 16)
    c.require_events("call", "ret", "format", "write", "done")

CHECKS = {"P22": logger, "P03": pool, "P04": mutex, "P05": waitevent, "P06": thread}
