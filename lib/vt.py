"""Shared machinery of every check: build a driver from /repo's working tree, run it, validate the
recorded traces against a TLA+ trace specification with TLC, model-check the specification itself, and
write the evidence file.  Outcomes of a check: exit 0, or exit 1 with a VIOLATION line; anything else
is an error of the machinery (exit 2)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class MachineryError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

BASE_FLAGS = ["-std=c++20", "-Wno-error", "-w", "-Wno-changes-meaning", "-mavx", "-DNDEBUG",
              "-DNEOLIB_HOSTED_ENVIRONMENT", "-g1", "-pthread"]

class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vt-%s-" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.events = 0
        self.covered_events = {}
        self.t_build = self.t_run = self.t_tlc = 0.0
        d = os.path.join(VERIF, "evidence", "replay")
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith(pid + "-"):
                    os.unlink(os.path.join(d, f))

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def export_header(self):
        d = os.path.join(self.work, "gen", "neolib")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "neolib_export.hpp")
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write("#pragma once\n#define NEOLIB_EXPORT\n#define NEOLIB_NO_EXPORT\n#define NEOLIB_DEPRECATED\n"
                        "#define NEOLIB_DEPRECATED_EXPORT\n#define NEOLIB_DEPRECATED_NO_EXPORT\n")
        return os.path.join(self.work, "gen")

    def build(self, name, sources, flags=(), libs=(), opt="-O1", san=True, cxx="g++-13", src_flags=None, conc=False):
        """Compile each source (absolute, or relative to /repo or to /verif/harness) and link."""
        t = time.time()
        gen = self.export_header()
        inc = ["-I", gen, "-I", REPO + "/include", "-I", REPO + "/src", "-I", VERIF + "/harness/common",
               "-I", VERIF + "/harness"]
        common = [cxx] + [f for f in flags if f.startswith("-I")] + BASE_FLAGS + [opt] + inc + ["-include", VERIF + "/harness/common/shim.hpp"]
        sanf = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if san else []
        jobs = []
        if conc:    # scheduled histories: instrumented with -fsanitize=thread, linked with the runtime in conc/sched.cpp
            san, sanf, sources, libs = False, [], list(sources) + ["conc/sched.cpp"], list(libs) + ["-ldl"]
        for s in sources:
            if s.startswith("/"):
                p = s
            elif os.path.exists(os.path.join(VERIF, "harness", s)):
                p = os.path.join(VERIF, "harness", s)
            else:
                p = os.path.join(REPO, s)
            o = os.path.join(self.work, name + "_" + s.strip("/").replace("/", "_") + ".o")
            extra = list((src_flags or {}).get(s, []))
            if conc and s != "conc/sched.cpp":
                extra += ["-fsanitize=thread", "-I", VERIF + "/harness/conc"]
            jobs.append((p, o, common + sanf + list(flags) + extra + ["-c", p, "-o", o]))
        os.makedirs(os.path.join(self.work, name + ".d"), exist_ok=True)
        def comp(j):
            r = subprocess.run(j[2], capture_output=True, text=True)
            return j, r
        objs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for j, r in ex.map(comp, jobs):
                if r.returncode != 0:
                    raise MachineryError("compile failed: %s\n%s" % (j[0], r.stderr[-6000:]))
                objs.append(j[1])
        exe = os.path.join(self.work, name)
        r = subprocess.run([cxx, "-pthread", "-rdynamic"] + sanf + list(flags) + objs + ["-o", exe] + list(libs), capture_output=True, text=True)
        if r.returncode != 0:
            raise MachineryError("link failed: %s\n%s" % (name, r.stderr[-6000:]))
        self.t_build += time.time() - t
        return exe

    # ---------------------------------------------------------------- run
    def _run1(self, cmd, timeout, env=None):
        e = dict(os.environ)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1")
        e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=78")
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                               cwd=self.work, stdin=subprocess.DEVNULL, errors="replace", text=True)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            return "timeout", "", (x.stderr or b"").decode(errors="replace") if isinstance(x.stderr, bytes) else (x.stderr or "")

    def run_drivers(self, cmds, timeout=90, env=None):
        """cmds: list of (argv, trace_path). A crash, sanitizer report or hang of the driver is the code under test
        failing on a recorded history: it is reported (after a confirming re-run) as a violation.
        Returns trace paths of the runs that completed."""
        t = time.time()
        ok = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda c: self._run1(c[0], timeout, env), cmds))
        bad = []
        for (argv, tp), (rc, so, se) in zip(cmds, res):
            if rc == 0:
                ok.append(tp)
            elif rc == 3:   # the harness reports an error of its own
                raise MachineryError("driver harness error: %s\n%s" % (argv, se[-3000:]))
            else:
                bad.append((argv, tp, rc, se))
        if len(bad) > 4:
            log("%d driver runs failed; the first 4 are confirmed and reported" % len(bad))
        bad = bad[:4]
        with cf.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(lambda c: self._run1(c[0], timeout * 2, env), bad))
        for (argv, tp, rc, se), (rc2, so2, se2) in zip(bad, res):
            if rc2 == 0:
                log("unconfirmed driver failure (rc %s then 0): %s\n%s" % (rc, argv, se[-1500:]))
                ok.append(tp)
                continue
            tail = last_history(tp)
            what = "timeout (no progress)" if rc2 == "timeout" else "exit %s" % rc2
            self.violation("driver failed: %s" % what, {"argv": argv, "stderr": se2[-6000:], "history": tail})
        self.t_run += time.time() - t
        return ok

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, heap="1500m", timeout=600, extra=(), queue_dfs=False):
        d = os.path.dirname(module)
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.work)
        jopts = ["-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m", "-XX:TieredStopAtLevel=4"]
        if queue_dfs:
            jopts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        libp = [VERIF + "/spec/common", d]
        cmd = ["java"] + jopts + ["-DTLA-Library=" + ":".join(libp), "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
               "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               timeout=timeout, env=e, cwd=d)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def _stats(out):
        m = None
        for m in re.finditer(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", out):
            pass
        if not m:
            return 0, 0
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))

    def model_check(self, spec, cfg, must_cover=True, timeout=700, workers=None, extra=(), heap="6g"):
        """Check the specification itself exhaustively within its config; the specification failing its own
        properties is an error of the machinery, not of the code."""
        t = time.time()
        module = os.path.join(VERIF, "spec", spec)
        cfgp = os.path.join(VERIF, "spec", cfg)
        rc, out = self.tlc(module, cfgp, workers=workers or NCPU, heap=heap, timeout=timeout, extra=["-coverage", "1"] + list(extra) if must_cover else list(extra))
        gen, dist = self._stats(out)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError("model check of %s (%s) failed rc=%s\n%s" % (spec, cfg, rc, out[-4000:]))
        dead = uncovered_actions(out) if must_cover else []
        if dead:
            raise MachineryError("vacuous model %s: actions never taken: %s" % (cfg, dead))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.extra.setdefault("models", []).append({"spec": spec, "cfg": cfg, "distinct": dist, "generated": gen})
        self.t_tlc += time.time() - t
        return out

    def tlc_simulate_plans(self, spec, cfg, num, depth, env=None, timeout=300):
        """Behaviours generated from the specification: the Gen module prints each as a PLAN line."""
        t = time.time()
        module = os.path.join(VERIF, "spec", spec)
        cfgp = os.path.join(VERIF, "spec", cfg)
        rc, out = self.tlc(module, cfgp, workers=1, env=env, timeout=timeout,
                           extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)])
        plans = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"PLAN ') or line.startswith("PLAN "):
                plans.append(json.loads(line)[5:] if line.startswith('"') else line[5:])
        if not plans:
            raise MachineryError("no plans generated by %s rc=%s\n%s" % (spec, rc, out[-3000:]))
        self.t_tlc += time.time() - t
        return plans

    def tlc_transition_plans(self, spec, cfg, limit, timeout=300):
        """One operation sequence per transition of the specification's reachable graph (printed by the spec as PLAN
        lines), a seeded sample of `limit` of them."""
        import random
        t = time.time()
        rc, out = self.tlc(os.path.join(VERIF, "spec", spec), os.path.join(VERIF, "spec", cfg), workers=1, timeout=timeout, heap="4g")
        if rc != 0:
            raise MachineryError("plan generation %s failed rc=%s\n%s" % (cfg, rc, out[-3000:]))
        plans = []
        for line in out.splitlines():
            if line.startswith('"PLAN '):
                plans.append(re.findall(r'\\"([^"\\]*)\\"', line))
        gen, dist = self._stats(out)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        plans = sorted(set(tuple(p) for p in plans))
        self.extra.setdefault("spec_generated_plans", []).append({"cfg": cfg, "transitions": len(plans), "replayed": min(limit, len(plans))})
        if len(plans) > limit:
            plans = random.Random(self.seed).sample(plans, limit)
        self.t_tlc += time.time() - t
        return plans

    def plan_files(self, plans, shards, name):
        files = []
        for k in range(shards):
            part = plans[k::shards]
            if not part:
                continue
            p = os.path.join(self.work, "%s-%d.plan" % (name, k))
            with open(p, "w") as f:
                for pl in part:
                    f.write("reset\n" + "\n".join(pl) + "\n")
            files.append(p)
        return files

    def builds(self, jobs):
        """jobs: list of dicts of build() arguments, built in parallel."""
        t = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(self.build, **j) for j in jobs]
            r = [f.result() for f in fs]
        self.t_build = time.time() - t
        return r

    def validate_one(self, spec, cfg, trace, heap="2g", timeout=600, queue_dfs=False, env=None):
        module = os.path.join(VERIF, "spec", spec)
        cfgp = os.path.join(VERIF, "spec", cfg)
        ee = {"TRACE": trace}
        ee.update(env or {})
        rc, out = self.tlc(module, cfgp, env=ee, heap=heap, timeout=timeout, queue_dfs=queue_dfs)
        m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
        if not m:
            raise MachineryError("trace validation gave no verdict: %s %s rc=%s\n%s" % (spec, trace, rc, out[-5000:]))
        matched, total = int(m.group(1)), int(m.group(2))
        accepted = matched == total
        if accepted and rc != 0:
            raise MachineryError("trace accepted but TLC reported an error: %s rc=%s\n%s" % (spec, rc, out[-4000:]))
        gen, dist = self._stats(out)
        return accepted, matched, total, dist, gen, out

    def validate(self, spec, cfg, traces, heap="2g", timeout=600, queue_dfs=False, label=None, env=None, known=None, parallel=None):
        """Validate trace files (NDJSON, each history starts with an event "reset").  A rejected history is
        re-validated alone; it is a violation when the rejection repeats."""
        t = time.time()
        traces = [x for x in traces if os.path.exists(x) and os.path.getsize(x) > 0]
        if not traces:
            if self.violations:
                return
            raise MachineryError("no traces to validate for " + spec)
        for tr in traces:
            n = 0
            with open(tr) as f:
                for line in f:
                    if line.startswith('{"e":"reset"'):
                        n += 1
                    m = re.match(r'\{"e":"([^"]*)"', line)
                    if m:
                        k = m.group(1)
                        self.covered_events[k] = self.covered_events.get(k, 0) + 1
                        self.events += 1
            self.cov["traces_validated_against_impl"] += n
        def one(tr):
            return tr, self.validate_one(spec, cfg, tr, heap, timeout, queue_dfs, env)
        with cf.ThreadPoolExecutor(parallel or NCPU) as ex:
            results = list(ex.map(one, traces))
        for tr, (acc, matched, total, dist, gen, out) in results:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            if acc:
                continue
            hist, idx = history_at(tr, matched)
            # confirm alone
            alone = os.path.join(self.work, "reject-%s.ndjson" % hashlib.md5(tr.encode()).hexdigest()[:8])
            with open(alone, "w") as f:
                f.write("".join(hist))
            acc2, m2, t2, _, _, out2 = self.validate_one(spec, cfg, alone, heap, timeout, queue_dfs, env)
            if acc2:
                raise MachineryError("rejection of %s at %d did not repeat on the isolated history" % (tr, matched))
            rej = hist[m2] if m2 < len(hist) else "(end)"
            err = [l for l in out2.splitlines() if "Invariant" in l or "violated" in l or "Error" in l][:5]
            self.violation("trace rejected by %s at event %d of its history: %s" % (spec, m2, rej.strip()[:600]),
                           {"spec": spec, "matched_prefix": m2, "history": [h.rstrip("\n") for h in hist[:m2 + 3]],
                            "rejected_event": rej.strip(), "tlc": err, "trace": os.path.basename(tr), "label": label})
        self.t_tlc += time.time() - t
        if not self.cov["samples"]:
            h, _ = history_at(traces[0], 0)
            self.cov["samples"] = [json.loads(x) for x in h[:6]]

    # ---------------------------------------------------------------- results
    def violation(self, what, detail):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "what": what, **detail}, f, indent=1)
        self.violations.append({"what": what[:800], "replay": p})

    def require_events(self, *names):
        """Vacuity guard: the listed trace events must have been exercised."""
        missing = [n for n in names if not self.covered_events.get(n)]
        if missing and not self.violations:
            raise MachineryError("vacuous run: events never exercised: %s" % missing)

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov), "wall_s": round(time.time() - self.t0, 2)}
        ev["coverage"]["events_validated"] = self.events
        ev["coverage"]["events_by_kind"] = self.covered_events
        for k, v in self.extra.items():
            ev["coverage"][k] = v
        ev["coverage"]["times"] = {"build": round(self.t_build, 1), "run": round(self.t_run, 1), "tlc": round(self.t_tlc, 1)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if self.violations:
            ev["violations"] = len(self.violations)
            ev["coverage"]["violation_texts"] = [v["what"] for v in self.violations]
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
            log("  " + v["what"])
        log("%s %s: %s in %.1fs (build %.1f run %.1f tlc %.1f) histories=%d events=%d states=%d" % (
            self.pid, self.tier, "VIOLATED" if self.violations else "ok", time.time() - self.t0, self.t_build, self.t_run,
            self.t_tlc, self.cov["traces_validated_against_impl"], self.events, self.cov["states"]))
        return 1 if self.violations else 0

def history_at(path, idx):
    """Lines of the history containing line number idx (0-based), and idx relative to it."""
    with open(path) as f:
        lines = f.readlines()
    idx = min(idx, len(lines) - 1)
    s = idx
    while s > 0 and not lines[s].startswith('{"e":"reset"'):
        s -= 1
    e = s + 1
    while e < len(lines) and not lines[e].startswith('{"e":"reset"'):
        e += 1
    return lines[s:e], idx - s

def last_history(path):
    try:
        h, _ = history_at(path, 1 << 60)
        return [x.rstrip("\n") for x in h]
    except Exception:
        return []

def uncovered_actions(out):
    """Actions of Next that TLC's -coverage reports as never taken."""
    last = {}
    for m in re.finditer(r"^<(\w+) line (\d+), col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)", out, re.M):
        last[(m.group(1), m.group(2), m.group(3))] = int(m.group(5))
    return ["%s@%s:%s" % (k[0], k[2], k[1]) for k, v in last.items() if v == 0 and not k[0].startswith("Init")]

def main(registry):
    if len(sys.argv) < 2:
        print("usage: check ID [quick|thorough]"); sys.exit(2)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(pid, tier, seed)
    try:
        registry[pid](c)
        rc = c.finish()
    except MachineryError as x:
        if c.violations:
            log("machinery error after a violation: %s" % str(x)[:2000])
            rc = c.finish()
        else:
            log("ERROR %s: %s" % (pid, x))
            rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            c.cleanup()
        else:
            log("kept " + c.work)
    sys.exit(rc)
