"""Settings (P21): spec/app."""
import os
from common import *

def settings(c):
    c.model_check("app/SettingsMC.tla", "app/SettingsMC.cfg")
    if not c.quick:
        c.model_check("app/SettingsMC.tla", "app/SettingsMCDeep.cfg")
    src = ["settings/driver.cpp", "src/app/settings.cpp"] + TASK_SRC
    # without a sanitizer memory is used again at once
    exes = c.builds([dict(name="st", sources=src, libs=TASK_LIBS, opt="-O0"), dict(name="stn", sources=src, libs=TASK_LIBS, opt="-O0", san=False)])
    cmds = []
    for s in range(8 if c.quick else 24):
        tp = os.path.join(c.work, "st-%d.nd" % s); d = os.path.join(c.work, "st-%d.d" % s); os.makedirs(d, exist_ok=True)
        cmds.append(([exes[s % 2], "rand", tp, str(c.seed * 1000 + s), str(150 if c.quick else 1500), "70", d], tp))
    tr = c.run_drivers(cmds)
    c.validate("app/SettingsTrace.tla", "app/SettingsTrace.cfg", tr)
    c.require_events("reg", "set", "change", "clear", "setdef", "enable", "apply", "discard", "delete", "pending", "missing", "save", "load", "reopen", "friend", "friendly", "title", "titled")

CHECKS = {"P21": settings}
