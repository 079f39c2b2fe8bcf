"""Entity component system: stores P10, entities P11 (spec/ecs)."""
import os
from common import TASK_SRC, TASK_LIBS
ECS_SRC = TASK_SRC + ["src/ecs/ecs.cpp", "src/ecs/entity.cpp", "src/ecs/entity_archetype.cpp", "src/ecs/system.cpp", "src/ecs/time.cpp", "src/app/power.cpp"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ["-I" + HERE + "/harness/ecs/overlay"]

def _drive(c, name, spec, hist, length, shards):
    exe = c.build(name, ["ecs/%s.cpp" % name] + ECS_SRC, libs=TASK_LIBS, flags=FLAGS, opt="-O0")
    cmds = []
    for s in range(shards):
        tp = os.path.join(c.work, "%s-%d.nd" % (name, s))
        cmds.append(([exe, tp, str(c.seed * 1000 + s + 3), str(hist), str(length)], tp))
    c.validate("ecs/%s.tla" % spec, "ecs/%s.cfg" % spec, c.run_drivers(cmds, timeout=120 if c.quick else 1200))

def stores(c):
    c.model_check("ecs/StoreMC.tla", "ecs/StoreMC.cfg" if c.quick else "ecs/StoreMCDeep.cfg")
    _drive(c, "store", "StoreTrace", *((200, 60, 8) if c.quick else (1500, 90, 16)))
    c.require_events("fill", "put", "make", "del", "sort", "take", "hold", "drop", "bump", "bad", "sput", "sget", "sbad")

def world(c):
    c.model_check("ecs/EcsMC.tla", "ecs/EcsMC.cfg" if c.quick else "ecs/EcsMCDeep.cfg")
    _drive(c, "world", "EcsTrace", *((80, 70, 8) if c.quick else (600, 120, 16)))
    c.require_events("create", "destroy", "later", "creations", "doom", "dooms", "populate", "onew", "own", "odel", "detach", "handle", "hset", "hfree",
                     "archetype", "again", "system", "pause", "resume", "pauseall", "resumeall", "refuse", "span", "time")

CHECKS = {"P10": stores, "P11": world}
