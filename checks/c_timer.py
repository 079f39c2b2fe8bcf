"""Timers on a virtual clock (P07): spec/task."""
import os
from common import *
TIMER_SRC = EVENT_SRC + UUID_SRC + ["src/task/timer.cpp", "src/task/timer_object.cpp", "src/task/async_task.cpp", "src/task/time_slice.cpp", "src/task/waitable_event.cpp", "src/task/thread.cpp", "src/app/module.cpp"] + [s for s in TASK_SRC if "posix" in s]

def timers(c):
    c.model_check("task/TimersMC.tla", "task/TimersMC.cfg")
    if not c.quick:
        c.model_check("task/TimersMC.tla", "task/TimersMCDeep.cfg")
    exe = c.build("tm", ["timer/driver.cpp"] + TIMER_SRC, libs=TASK_LIBS, opt="-O0")
    cmds = []
    for s in range(8 if c.quick else 16):
        tp = os.path.join(c.work, "tm-%d.nd" % s)
        cmds.append(([exe, "rand", tp, str(c.seed * 1000 + s), str(500 if c.quick else 5000), "80"], tp))
    tr = c.run_drivers(cmds)
    c.validate("task/TimersTrace.tla", "task/TimersTrace.cfg", tr)
    c.require_events("new", "copy", "assign", "op", "setdur", "look", "destroy", "ctxdie", "taskdie", "advance", "poll", "fire", "fired", "polled", "pollx")

CHECKS = {"P07": timers}
