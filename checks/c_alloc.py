"""Allocators P20: spec/alloc."""
from c_ref import run

def allocators(c):
    c.model_check("alloc/PoolMC.tla", "alloc/PoolMC.cfg" if c.quick else "alloc/PoolMCDeep.cfg", must_cover=False)
    c.model_check("alloc/PoolMC.tla", "alloc/PoolMCOmega.cfg", must_cover=False)
    h, l = (132, 100) if c.quick else (2200, 200)
    run(c, "alloc/driver.cpp", "alloc/BlocksTrace", h, l, 8)
    c.require_events("take", "give", "refused", "badgive", "recycle", "buffer")

CHECKS = {"P20": allocators}
