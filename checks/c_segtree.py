"""Trees (segmented_tree) P15: spec/tree/SegTree."""
from c_ref import run

def segtree(c):
    c.model_check("tree/SegTreeMC.tla", "tree/SegTreeMC.cfg" if c.quick else "tree/SegTreeMCDeep.cfg")
    h, l = (90, 90) if c.quick else (1500, 150)
    run(c, "segtree/driver.cpp", "tree/SegTreeTrace", h, l, 8)
    c.require_events("insert", "append", "prepend", "erase", "skip", "unskip", "value", "sort", "clear", "copy")

CHECKS = {"P15": segtree}
