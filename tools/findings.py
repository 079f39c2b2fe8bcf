#!/usr/bin/env python3
"""Regenerates the 'fixed' lines of known_findings.txt from the fix commits of /repo (property taken from the map below)
and keeps the open findings, listed first."""
import subprocess, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [("scoped_pointer", "P35"), ("zip_iterator", "P35"), ("gap_vector: assigning", "P12"), ("uuid: writing", "P34"), ("hex_dump", "P34"), ("version: ", "P34"), ("a URI that", "P33"), ("unescaping a URI", "P33"), ("the user information and host", "P33"), ("a port that is not", "P33"), ("writing a URI", "P33"), ("seeding simd_rand", "P32"), ("simd_rand", "P32"), ("the SIMD four-way", "P32"), ("assigning a swizzle", "P32"), ("the rotation matrix", "P32"), ("aabb_contains", "P32"), ("transforming a bounding box", "P32"), ("to_aabb_2d", "P32"), ("quad_extents", "P32"), ("the product of two matrices", "P32"), ("rounding a matrix", "P32"), ("arithmetic between a matrix", "P32"), ("erasing or adding tree nodes", "P15"), ("tree::erase", "P15"), ("postfix increment and decrement of tree", "P15"), ("copied tag_array", "P14"), ("a copy constructed tag_array", "P14"), ("pool allocators", "P20"), ("recycling an omega", "P20"), ("containers cannot use the pool", "P20"), ("XML", "P26"), ("an XML", "P26"), ("reading XML", "P26"), ("reading an empty XML", "P26"), ("white space before the", "P26"), ("unterminated XML", "P26"), ("a '<' which ends", "P26"), ("removing a component record", "P10"), ("intrusive_sort", "P10"), ("ecs::", "P11"), ("an entity asked", "P11"), ("a system given", "P11"), ("scoped_multi_lock", "P11"), ("JSON", "P25"), ("json", "P25"), ("string_to_double", "P25"), ("relaxed JSON", "P25"), ("standard JSON", "P25"), ("tokens", "P27"), ("wildcard_match", "P27"), ("replace_string", "P27"), ("format", "P27"), ("string_search_fsa", "P27"), ("quick_string", "P19"), ("UTF-8", "P29"), ("check_utf8", "P29"), ("a setting whose key", "P21"), ("settings of single byte", "P21"), ("clearing a setting", "P21"), ("a new setting inherits", "P21"), ("a carriage return at", "P24"), ("a packet connection", "P24"), ("sending an empty packet", "P24"), ("zip", "P30"), ("a zip", "P30"), ("an empty zip", "P30"), ("a deflated", "P30"), ("a copied zip", "P30"), ("a damaged zip", "P30"), ("extracting a zip", "P30"), ("gzip", "P30"), ("damaged gzip", "P30"), ("the gzip data", "P30"), ("an any copied", "P31"), ("any::emplace", "P31"), ("assigning an empty variant", "P31"), ("a variant assigned", "P31"), ("reading '?'", "P31"), ("an any_cast", "P31"), ("an i_optional", "P31"), ("gap_vector", "P12"), ("array_tree", "P13"), ("segmented_array", "P13"), ("growable_static", "P18"), ("polymorphic", "P18"), ("mutable_set", "P28"),
        ("ref_ptr", "P09"), ("switchable_mutex", "P04"), ("async_event_queue", "P02"), ("event:", "P01"), ("sink", "P01"), ("lifetime", "P08"), ("object,", "P08"), ("indexitor", "P16"), ("jar", "P17"), ("waitable_event", "P05"), ("logger", "P22"), ("timer", "P07"),
        ("thread pool", "P03"), ("function run in a thread pool", "P03"), ("threads added", "P03"), ("threads waiting for a thread pool", "P03"), ("thread", "P06")]
exec(open(os.path.join(V, "tools", "findprops.py")).read()) if os.path.exists(os.path.join(V, "tools", "findprops.py")) else None
p = os.path.join(V, "known_findings.txt")
old = [l for l in (open(p).read().splitlines() if os.path.exists(p) else []) if l and not l.startswith("fixed:")]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in out.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    pr = next((x for k, x in PROP if s.startswith(k) or k in s.split(":")[0]), "??")
    old.append("fixed: property=%s %s %s" % (pr, h, s))
open(p, "w").write("\n".join(old) + "\n")
