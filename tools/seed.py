#!/usr/bin/env python3
"""Plant a bug in a scratch copy: seed.py ID PROPERTY FILE NEEDS BREAKS [repo sources for the demo...] < edits
Edits on stdin: old\\n====\\nnew, parts separated by \\n@@@@\\n (CRLF-safe); then \\n#### DEMO\\n and demo.cpp.
Writes seeded/ID, runs the demo on both trees and the property's quick check on the scratch copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/gen/neolib"
printf '#pragma once\\n#define NEOLIB_EXPORT\\n#define NEOLIB_NO_EXPORT\\n#define NEOLIB_DEPRECATED\\n#define NEOLIB_DEPRECATED_EXPORT\\n#define NEOLIB_DEPRECATED_NO_EXPORT\\n' > "$t/gen/neolib/neolib_export.hpp"
printf '#pragma once\\n#include <boost/lockfree/detail/prefix.hpp>\\nnamespace boost::lockfree::detail { inline constexpr unsigned cacheline_bytes = 64; }\\n' > "$t/shim.hpp"
cd "$t" || exit 9
for s in "$d/demo.cpp" %s; do
  g++-13 -std=c++20 -w -Wno-changes-meaning -mavx -DNDEBUG -DNEOLIB_HOSTED_ENVIRONMENT -O1 -g1 -pthread -include "$t/shim.hpp" -I"$t/gen" -I"$r/include" -I"$r/src" -c "$s" -o "$t/$(echo "$s" | md5sum | cut -c1-12).o" & pids="$pids $!"
done
for p in $pids; do wait $p || { echo "demo does not compile"; exit 9; }; done
g++-13 -pthread "$t"/*.o -o "$t/demo" %s || exit 9
timeout 60 "$t/demo"
'''
def main():
    bid, prop, file, needs, breaks = sys.argv[1:6]
    srcs = [a for a in sys.argv[6:] if not a.startswith("-l")]
    libs = [a for a in sys.argv[6:] if a.startswith("-l")]
    text = sys.stdin.read()
    edits, demo = text.split("#### DEMO\n")
    edits = edits.rstrip("\n")
    sc = "/tmp/seedwork/" + bid
    shutil.rmtree(sc, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", sc], check=True)
    cur = file
    for part in edits.split("\n@@@@\n"):
        if part.startswith("FILE "):
            line, part = part.split("\n", 1)
            cur = line[5:].strip()
        old, new = part.split("\n====\n") if "\n====\n" in part else (part[:-5], "")
        p = os.path.join(sc, cur)
        raw = open(p, newline="", errors="surrogateescape").read()
        crlf = "\r\n" in raw
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if raw.count(old) != 1:
            sys.exit("edit matches %d times: %s" % (raw.count(old), old[:200]))
        open(p, "w", newline="", errors="surrogateescape").write(raw.replace(old, new))
    d = os.path.join(V, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", sc, "diff", "--binary"], capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (" ".join('"$r/%s"' % s for s in srcs), " ".join(libs)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = subprocess.run([d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run([d + "/demo.sh"], cwd=sc, capture_output=True, text=True)
    print("demo unchanged:", r0.returncode, r0.stdout[-300:], r0.stderr[-800:] if r0.returncode else "")
    print("demo patched:", r1.returncode, r1.stdout[-300:], r1.stderr[-300:])
    e = dict(os.environ, VERIF_REPO=sc, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    c = subprocess.run([V + "/check", prop, "quick"], env=e, capture_output=True, text=True, cwd=V)
    print("check:", c.returncode, (c.stdout + c.stderr)[-700:])
    shutil.rmtree(sc, ignore_errors=True)
main()
