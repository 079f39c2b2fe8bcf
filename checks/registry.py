import importlib, os, re
CHECKS = {}
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    m = re.match(r"(c_\w+)\.py$", f)
    if m:
        CHECKS.update(importlib.import_module(m.group(1)).CHECKS)
