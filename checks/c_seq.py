"""Sequence containers: gap_vector, segmented_array, small vectors, polymorphic sequences (spec/seq)."""
import os

SEQ = ("seq/SequenceTrace.tla", "seq/SequenceTrace.cfg")

def run_seq(c, driver, configs, hist, length, shards=1, plans=None, plan_cfg=None, sources=(), libs=(), flags=(), bulk=()):
    jobs = [dict(name="d_" + n, sources=[driver] + list(sources), flags=list(fl) + list(flags), libs=libs) for n, fl in configs]
    exes = dict(zip([n for n, _ in configs], c.builds(jobs)))
    cmds = []
    for n, _ in configs:
        for s in range(shards):
            tp = os.path.join(c.work, "%s-%d.nd" % (n, s))
            h, l = (hist, length) if n not in bulk else bulk[n]
            cmds.append(([exes[n], "rand", tp, str(c.seed * 1000 + s + 17), str(h), str(l)], tp))
    if plans:
        for k, pf in enumerate(c.plan_files(plans, 4, "plan")):
            tp = os.path.join(c.work, "plan-%d.nd" % k)
            cmds.append(([exes[plan_cfg], "plan", tp, pf], tp))
    tr = c.run_drivers(cmds)
    c.validate(*SEQ, tr)
    c.require_events("insert", "erase", "assign", "copy", "read")

def gap_vector(c):
    def cfg(n, g, nf, el, ml, bulk="false"):
        return (n, ["-DGAP=%d" % g, "-DNEAR=%d" % nf, "-DELEM=" + el, "-DMAXLEN=%d" % ml, "-DBULK=" + bulk])
    configs = [cfg("g1n1", 1, 1, "Owner", 20), cfg("g2n1", 2, 1, "Owner", 24), cfg("g3n1", 3, 1, "CopyOwner", 28),
               cfg("g4n2", 4, 2, "CopyOwner", 28), cfg("g8n1", 8, 1, "Owner", 40), cfg("int3", 3, 1, "int", 28),
               cfg("def", 256, 2, "Owner", 1500, "true")]
    c.model_check("seq/GapBuffer.tla", "seq/GapBufferMC.cfg" if c.quick else "seq/GapBufferMCBig.cfg")
    plans = c.tlc_transition_plans("seq/GapBuffer.tla", "seq/GapBufferGen.cfg", 2500 if c.quick else 40000)
    h, l, sh = (150, 60, 1) if c.quick else (700, 80, 6)
    run_seq(c, "gap_vector/driver.cpp", configs, h, l, sh, plans, "g2n1", bulk={"def": (25, 50) if c.quick else (120, 60)})
    c.require_events("swap", "move", "resize", "iter", "at", "ends", "rread", "gone")

def segmented_array(c):
    def cfg(n, seg, el, ml, *more):
        return (n, ["-DSEG=%d" % seg, "-DELEM=" + el, "-DMAXLEN=%d" % ml] + list(more))
    configs = [cfg("s1", 1, "Tracked", 20), cfg("s2", 2, "Tracked", 24), cfg("s3", 3, "Tracked", 28), cfg("s4", 4, "Tracked", 40),
               cfg("s3o", 3, "Owner", 24), cfg("s5i", 5, "int", 40), cfg("s64", 64, "Tracked", 400, "-DBULKY")]
    c.model_check("seq/Segments.tla", "seq/SegmentsMC.cfg" if c.quick else "seq/SegmentsMCBig.cfg")
    plans = c.tlc_transition_plans("seq/Segments.tla", "seq/SegmentsGen.cfg", 6000 if c.quick else 60000)
    h, l, sh = (250, 60, 1) if c.quick else (700, 80, 6)
    run_seq(c, "segmented_array/driver.cpp", configs, h, l, sh, plans, "s4", bulk={"s64": (25, 50) if c.quick else (120, 60)})
    c.require_events("swap", "move", "resize", "iter", "ends", "rread", "gone", "pos", "walk")

def small_vector(c):
    def cfg(n, cap, mx, poly, el, ml):
        return (n, ["-DCAP=%d" % cap, "-DMAX=%d" % mx, "-DPOLY=%d" % poly, "-DELEM=" + el, "-DMAXLEN=%d" % ml])
    configs = [cfg("sv3", 3, 0, 0, "Tracked", 14), cfg("sv4o", 4, 0, 0, "Owner", 14), cfg("sv2i", 2, 0, 0, "int", 10), cfg("gv3m9", 3, 9, 0, "Tracked", 9),
               cfg("va5", 5, 5, 0, "Tracked", 5), cfg("pv3m3", 3, 3, 1, "Tracked", 3), cfg("pv3m8", 3, 8, 1, "Tracked", 8), cfg("pv2i", 2, 7, 1, "int", 7)]
    h, l, sh = (400, 60, 1) if c.quick else (900, 80, 8)
    run_seq(c, "small_vector/driver.cpp", configs, h, l, sh)
    c.require_events("swap", "move", "resize", "iter", "ends", "rread", "gone", "caps", "storage", "refuse", "avail")

def poly_seq(c):
    """the sequence part of P19"""
    def cfg(n, kind, lv, el):
        return (n, ["-DKIND=" + kind, "-DLEVEL=%d" % lv, "-DELEM=" + el] + (["-DITER_ARITH=0"] if kind != "vector" or lv == 2 else []))
    configs = [cfg("v0", "vector", 0, "Tracked"), cfg("v1", "vector", 1, "Tracked"), cfg("v2", "vector", 2, "Tracked"), cfg("v0i", "vector", 0, "int"), cfg("l0", "list", 0, "Tracked"),
               cfg("l1", "list", 1, "Tracked"), cfg("d0", "deque", 0, "Tracked"), cfg("d1", "deque", 1, "Tracked")]
    h, l, sh = (120, 50, 1) if c.quick else (900, 80, 4)
    run_seq(c, "poly_seq/driver.cpp", configs, h, l, sh)
    c.require_events("move", "resize", "iter", "ends", "rread", "gone", "itcopy")

CHECKS = {"P18": small_vector, "P12": gap_vector, "P13": segmented_array}
