"""Vectors, matrices, turns and bounding boxes (P32): spec/math/LinearAlgebra."""
import os
from common import *

def linear(c):
    c.model_check("math/LinearAlgebraMC.tla", "math/LinearAlgebraMC.cfg" if c.quick else "math/LinearAlgebraMCDeep.cfg")
    built = c.builds([dict(name="linear", sources=["math/linear.cpp"]),
                      dict(name="linear-dynamic", sources=["math/linear.cpp"], flags=["-DUSE_AVX_DYNAMIC", "-DUSE_EMM_DYNAMIC"])])
    count, shards = (60, 1) if c.quick else (300, 4)
    cmds = []
    for exe, simd in ((built[0], 1), (built[1], 0), (built[1], 1)):
        for kind in "df":
            for s in range(shards):
                tp = os.path.join(c.work, "%s-%d-%s-%d.nd" % (os.path.basename(exe), simd, kind, s))
                cmds.append(([exe, kind, tp, str(c.seed * 100 + s * 2 + simd), str(count), str(simd)], tp))
    c.validate("math/LinearAlgebraTrace.tla", "math/LinearAlgebraTrace.cfg", c.run_drivers(cmds, timeout=300))
    c.require_events("vector", "matrix", "box", "quad", "turn", "euler", "facing", "place", "between", "curve", "lanes", "random", "change", "end")

CHECKS = {"P32": linear}
