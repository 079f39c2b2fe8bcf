"""ZIP archives and gzip data (P30): spec/file/Archive."""
import os
from common import *

def archive(c):
    c.model_check("file/ArchiveMC.tla", "file/ArchiveMC.cfg" if c.quick else "file/ArchiveMCDeep.cfg")
    exe = c.build("archive", ["file/archive.cpp", "src/file/zip.cpp", "src/file/gunzip.cpp", "src/core/crc.cpp"], libs=["-lz"])
    modes = [("zip", 5, 1200), ("gzip", 2, 1500)] if c.quick else [("zip", 8, 12000), ("gzip", 8, 10000)]
    cmds = []
    for mode, shards, count in modes:
        for s in range(shards):
            tp = os.path.join(c.work, "%s-%d.nd" % (mode, s))
            cmds.append(([exe, mode, tp, str(s), str(shards), str(c.seed), str(count), c.work], tp))
    c.validate("file/ArchiveTrace.tla", "file/ArchiveTrace.cfg", c.run_drivers(cmds, timeout=400))
    c.require_events("open", "get", "text", "file", "index", "copy", "look", "gunzip")

CHECKS = {"P30": archive}
