"""Tag arrays P14: spec/seq/TagArray, TagSegments."""
from c_ref import run

def tags(c):
    c.model_check("seq/TagSegments.tla", "seq/TagSegmentsMC.cfg" if c.quick else "seq/TagSegmentsMCBig.cfg")
    h, l = (120, 90) if c.quick else (2500, 150)
    run(c, "tagarray/driver.cpp", "seq/TagArrayTrace", h, l, 8)
    c.require_events("insert", "graft", "erase", "value", "copy", "self", "swap", "make", "at", "rev", "gone")

CHECKS = {"P14": tags}
