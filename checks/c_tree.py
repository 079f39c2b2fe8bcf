"""Order-statistic containers: the indexed list P16 (spec/tree)."""
from c_ref import run

def indexed(c):
    c.model_check("tree/IndexedMC.tla", "tree/IndexedMC.cfg")
    h, l = (90, 70) if c.quick else (1500, 120)
    run(c, "indexitor/driver.cpp", "tree/IndexedTrace", h, l, 8)
    c.require_events("insert", "fill", "erase", "resize", "update", "value", "copy", "swap", "find", "at", "rev")

CHECKS = {"P16": indexed}
