"""Common machinery of the checks: running TLC, running drivers of the real code, verdicts and evidence.

Outcome of a check: exit 0 (held on everything explored), exit 1 with a VIOLATION line, exit 2 for a failure of the
machinery itself (never used for something the code under test did).
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Violation(Exception):
    def __init__(self, message, replay=None):
        super().__init__(message)
        self.message = message
        self.replay = replay or {}


def canon(o):
    return json.dumps(o, sort_keys=True, separators=(",", ":"))


class TlcResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.depth = 0
        self.prints = []
        self.output = ""
        self.rc = 0
        self.error = None
        self.wall = 0.0
        self.coverage = {}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.t0 = time.time()
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": [],
                         "conformance": []}
        self.assumptions = []
        self.level = "model_checking"
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, *, workers=1, env=None, timeout=600, extra=(), heap="3g", line_cb=None):
        """Run TLC on spec/<module>.tla with a generated cfg. Returns a TlcResult; raises only on machinery failure."""
        d = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        timeout = max(timeout, 3600) if self.thorough else timeout
        cfg = os.path.join(d, "%s.cfg" % module)
        with open(cfg, "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        jtmp = os.path.join(d, "jtmp")
        os.makedirs(jtmp)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + jtmp, "-cp", TLA_CP, "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-workers", str(workers), *extra, os.path.join(SPEC, module + ".tla")]
        r = TlcResult()
        t = time.time()
        out_path = os.path.join(d, "out.txt")
        with open(out_path, "wb") as out:
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
                r.rc = p.returncode
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on %s after %ss" % (module, timeout))
        r.wall = time.time() - t
        keep = []
        with open(out_path, "r", errors="replace") as f:
            for line in f:
                if line.startswith('"EDGE '):
                    if line_cb:
                        line_cb(json.loads(json.loads(line)[5:]))
                elif line.startswith('"OUT '):
                    r.prints.append(json.loads(json.loads(line)[4:]))
                elif not line.startswith(("Parsing file", "Semantic processing")):
                    keep.append(line)
                    m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                    if m:
                        r.states, r.distinct = int(m.group(1)), int(m.group(2))
                    m = re.match(r"The depth of the complete state graph search is (\d+)", line)
                    if m:
                        r.depth = int(m.group(1))
        r.output = "".join(keep)
        errs = [x for x in keep if x.startswith("Error:")]
        if errs:
            r.error = "".join(errs)
        if r.rc != 0 and not r.error:
            r.error = "TLC exit code %d" % r.rc
        shutil.rmtree(d, ignore_errors=True)
        return r

    def model_check(self, module, cfg_text, *, workers=4, timeout=600, edges=None, name=None, extra=()):
        """Exhaustive check of the design. The specification is ours: any error here is an error of the machinery."""
        if os.environ.get("VERIF_NO_MC") and edges is None:      # tools/mutate.py: only the code changes
            return TlcResult()
        r = self.tlc(module, cfg_text, workers=1 if edges is not None else workers, timeout=timeout, line_cb=edges, extra=extra)
        if r.error:
            raise MachineryError("model %s does not satisfy its own specification:\n%s" % (module, r.output[-6000:]))
        self.coverage["states"] += r.distinct
        self.coverage["transitions"] += r.states
        self.coverage["models"].append({"module": module, "cfg": " ".join(cfg_text.split())[:600], "distinct_states": r.distinct,
                                        "states_generated": r.states, "depth": r.depth, "wall_s": round(r.wall, 2)})
        return r

    def validate(self, module, cfg_text, traces, *, what, timeout=600, describe=None, invariants_ok=True, chunk=4000):
        """Validate recorded traces (list of {"cfg":…, "evs":[…]}) against trace specification `module`.

        Raises Violation for the first rejected trace.
        """
        if not traces:
            raise MachineryError("no traces to validate for " + what)
        total = 0
        if self.thorough:
            chunk = min(chunk, 600)
        else:
            chunk = min(chunk, max(800, len(traces) // 3 + 1))

        def run(start):
            part = traces[start:start + chunk]
            path = os.path.join(self.tmp, "traces_%d.json" % start)
            with open(path, "w") as f:
                json.dump(part, f)
            try:
                return part, self.tlc(module, cfg_text, workers=1, env={"TRACE_FILE": path}, timeout=timeout)
            finally:
                os.remove(path)
        with concurrent.futures.ThreadPoolExecutor(5) as pool:
            results = list(pool.map(run, range(0, len(traces), chunk)))
        for part, r in results:
            rejected = [p for p in r.prints if p.get("kind") == "reject"]
            accepted = [p for p in r.prints if p.get("kind") == "accepted"]
            self.coverage["states"] += r.distinct
            self.coverage["transitions"] += r.states
            if rejected:
                p = rejected[0]
                tr = part[p["t"] - 1]
                l = p["l"]
                ev = tr["evs"][l - 1] if l <= len(tr["evs"]) else None
                raise Violation(
                    "%s: step %d of a recorded execution is not allowed by %s: %s" % (what, l, module, canon(ev)[:900]),
                    {"kind": "trace", "module": module, "what": what, "cfg": tr.get("cfg"), "step": l, "event": ev,
                     "prefix": tr["evs"][:l], "rejected_traces": len(rejected), "meta": tr.get("meta")})
            if r.error:
                if re.search(r"Invariant \S+ is violated|Attempted to|Evaluating|evaluating", r.output):
                    l = re.findall(r"^/\\ l = (\d+)", r.output, re.M)
                    t = re.findall(r"^/\\ t = (\d+)", r.output, re.M)
                    tr = part[int(t[-1]) - 1] if t else None
                    raise Violation("%s: recorded execution cannot be explained by %s (%s)" % (
                        what, module, " ".join(r.error.split())[:300]),
                        {"kind": "trace", "module": module, "what": what, "cfg": tr and tr.get("cfg"),
                         "step": l and int(l[-1]), "prefix": tr and tr["evs"][:int(l[-1]) if l else None],
                         "tlc": r.output[-4000:]})
                raise MachineryError("trace validation with %s failed:\n%s" % (module, r.output[-5000:]))
            if not accepted or accepted[0]["n"] != len(part):
                raise MachineryError("trace validation with %s gave no verdict:\n%s" % (module, r.output[-3000:]))
            total += sum(len(x["evs"]) for x in part)
        self.coverage["traces_validated_against_impl"] += len(traces)
        self.coverage["conformance"].append({"what": what, "module": module, "traces": len(traces), "events": total})
        if len(self.coverage["samples"]) < 6:
            s = max(traces[:50], key=lambda x: len(x["evs"]))
            self.coverage["samples"].append({"what": what, "cfg": s.get("cfg"), "events": s["evs"][:8], "length": len(s["evs"])})
        return total

    # --------------------------------------------------------------- drivers
    def drive(self, func, payload, *, timeout=None, hashseed=None):
        """Run vf.drivers.<func> (module:function) in a subprocess on /repo's working tree."""
        timeout = max(timeout or 0, 420 if self.tier == "quick" else 3000)
        inp = os.path.join(self.tmp, "in.json")
        out = os.path.join(self.tmp, "out.json")
        if os.path.exists(out):
            os.remove(out)
        with open(inp, "w") as f:
            json.dump(payload, f)
        e = dict(os.environ)
        e["PYTHONPATH"] = REPO + os.pathsep + VERIF
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["PYTHONPYCACHEPREFIX"] = "/nonexistent"
        e["PYTHONHASHSEED"] = str((hashseed if hashseed is not None else self.seed) % 4294967295)
        e["LANG"] = e["LC_ALL"] = "C.UTF-8"
        e["TZ"] = "UTC"
        log = os.path.join(self.tmp, "log.txt")
        with open(log, "wb") as lf:
            p = subprocess.Popen([PYTHON, "-W", "ignore", "-m", "vf.worker", func, inp, out, str(timeout)], cwd=self.tmp, env=e,
                                 stdout=lf, stderr=subprocess.STDOUT)
            try:
                rc = p.wait(timeout=timeout + 30)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -999
        with open(log, "r", errors="replace") as lf:
            lf.seek(0, 2)
            size = lf.tell()
            lf.seek(max(0, size - 8000))
            tail = lf.read()
        if not os.path.exists(out):
            if rc in (-999, 97):
                raise Violation("the code under test did not return (driver %s exceeded %ss)" % (func, timeout),
                                {"kind": "hang", "driver": func, "log": tail})
            raise MachineryError("driver %s ended with %s:\n%s" % (func, rc, tail))
        with open(out) as f:
            r = json.load(f)
        if r["status"] == "machinery":
            raise MachineryError("driver %s: %s" % (func, r["error"]))
        if r["status"] == "violation":
            raise Violation(r["message"], r.get("replay"))
        return r["result"]


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d["property"] == prop and d.get("status") == "known":
                    res.append(d)
    return res


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args(argv)
    from vf import checks
    fn = checks.CHECKS.get(a.prop)
    if fn is None:
        print("unknown property " + a.prop)
        return 2
    ctx = Ctx(a.prop, a.tier, a.seed)
    rc = 2
    violation = None
    try:
        try:
            fn(ctx)
            rc = 0
        except Violation as v:
            violation = v
            rc = 1
        except MachineryError as e:
            print("MACHINERY-ERROR property=%s %s" % (a.prop, e))
            rc = 2
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print("MACHINERY-ERROR property=%s" % a.prop)
            rc = 2
    finally:
        ctx.close()
    wall = round(time.time() - ctx.t0, 2)
    if rc != 2:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": ctx.level, "coverage": ctx.coverage,
              "assumptions": ctx.assumptions, "wall_s": wall, "violations": 0 if rc == 0 else 1}
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    if violation is not None:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        body = {"property": a.prop, "message": violation.message, "tier": a.tier, "seed": a.seed, "replay": violation.replay}
        h = hashlib.sha1(canon(body).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "out", "%s-%s.json" % (a.prop, h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print(violation.message)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    elif rc == 0:
        c = ctx.coverage
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            a.prop, a.tier, c["states"], c["transitions"], c["traces_validated_against_impl"], wall))
    return rc
