"""Plumbing of the checks: TLC runs, recorders, verdicts, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PYPY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
CORES = int(os.environ.get("VERIF_CORES", str(min(8, os.cpu_count() or 1))))


class Machinery(Exception):
    """the check itself failed (not a verdict about the code)"""


class Unreadable(Machinery):
    """TLC could not evaluate the specification on one record"""


def wild(x):
    """does the record hold a value that stands for "no such number"?"""
    if isinstance(x, dict):
        return any(wild(y) for y in x.values())
    if isinstance(x, list):
        return any(wild(y) for y in x)
    return isinstance(x, int) and abs(x) >= 10 ** 8


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.records = self.clauses = 0
        self.samples, self.bad, self.assumptions = [], [], []
        self.extra = {}
        self.exhaustive = None
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), self.dir)

    def quick(self, a, b):
        return a if self.tier == "quick" else b

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------ TLC
    def tlc(self, module, consts=None, env=None, args=(), workers=None, timeout=3000, init="Init", nxt="Next", more=""):
        """run TLC, return its printed JSON lines as {tag: [values]}"""
        n = len([x for x in os.listdir(self.dir) if x.startswith("run")])
        cfg = self.path("run%d-%s.cfg" % (n, module))
        with open(cfg, "w") as f:
            f.write("INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n%s\n" % (init, nxt, more))
            for k, v in (consts or {}).items():
                f.write("CONSTANT %s = %s\n" % (k, tla(v)))
        cmd = ["tlc", "-workers", str(workers or CORES), "-noGenerateSpecTE", "-metadir", self.path("md%d" % n), "-config", cfg]
        e = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss64m -Xmx6g -XX:+UseParallelGC -Djava.io.tmpdir=" + self.dir, **(env or {}))
        out = self.path("out%d-%s" % (n, module))
        with open(out, "w") as f:
            try:
                subprocess.run(cmd + list(args) + [module], cwd=self.dir, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Machinery("TLC timed out on " + module)
        res, tail, ok = {}, [], False
        with open(out) as f:
            for line in f:
                if line.startswith('"'):
                    try:
                        tag, _, body = json.loads(line).partition(" ")
                        res.setdefault(tag, []).append(json.loads(body))
                        continue
                    except ValueError:
                        pass   # a line of an error message
                tail.append(line)
                if "No error has been found" in line or line.startswith("Progress") or "Finished in" in line:
                    ok = True
                m = re.search(r"^(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    self.transitions += int(m.group(1))
                    self.states += int(m.group(2))
                m = re.search(r"number of states generated: (\d+)", line)
                if m:
                    self.transitions += int(m.group(1))
                    self.states += int(m.group(1))
        text = "".join(tail)
        if "Error:" in text or not ok:
            m = re.search(r"^/\\ l = (\d+)$", text, re.M)
            if m and "java.lang.Out" not in text and "StackOverflow" not in text:
                e = Unreadable("TLC could not judge record %s of %s:\n%s" % (m.group(1), module, text[:3000]))
                e.record, e.why = int(m.group(1)), re.findall(r"Error: (.*)", text)[:1]
                raise e
            raise Machinery("TLC failed on %s:\n%s" % (module, text[-3000:]))
        return res

    # ------------------------------------------------------------ worlds
    def worlds(self, n, seed_off=0, **consts):
        """n worlds drawn by TLC from spec/World.tla"""
        c = dict(MaxStations=5, MaxTrains=5, Theme="any", DirectPct=12, PairPct=20, RepeatPct=45, EmptySw=10, StrayPct=0, MinTrack=0)
        c.update(consts)
        r = self.tlc("World", c, args=["-simulate", "num=%d" % n, "-depth", "100", "-seed", str(self.seed * 1000 + seed_off)], workers=1)
        w = r.get("WORLD", [])
        if len(w) < n * 0.9:
            raise Machinery("only %d worlds generated" % len(w))
        return w

    def instances(self, n, seed_off=0, **consts):
        """n dispatching instances drawn by TLC from spec/InstanceGen.tla"""
        c = dict(MaxStations=3, MaxTrains=3, PairPct=25, SwitchPct=30, TightPct=20, NameStyle="any", Cap=1500, Deci="F", Room="F")
        c.update(consts)
        r = self.tlc("InstanceGen", c, args=["-simulate", "num=%d" % n, "-depth", "100", "-seed", str(self.seed * 1000 + seed_off)], workers=1)
        w = r.get("INST", [])
        if len(w) < n * 0.9:
            raise Machinery("only %d instances generated" % len(w))
        return w

    def programs(self, n, seed_off=0, **consts):
        """n integer programs drawn by TLC from spec/ProgramGen.tla"""
        c = dict(MaxVars=4, MaxCons=4, Ranges="any", Aim=40, WidePct=0, FixPct=0, Many="F")
        c.update(consts)
        r = self.tlc("ProgramGen", c, args=["-simulate", "num=%d" % n, "-depth", "100", "-seed", str(self.seed * 1000 + seed_off)], workers=1)
        w = r.get("PROG", [])
        if len(w) < n * 0.9:
            raise Machinery("only %d programs generated" % len(w))
        return w

    # ------------------------------------------------------------ recorder
    def record(self, script, prop, items, procs=None, timeout=1500, extra=()):
        """feed items (JSON values) to a recorder, in parallel chunks; return its records"""
        procs = max(1, min(procs or max(1, CORES - 2), len(items)))
        chunks = [items[i::procs] for i in range(procs)]

        def one(k):
            src, out = self.path("in-%s-%d" % (prop, k)), self.path("rec-%s-%d" % (prop, k))
            with open(src, "w") as f:
                for x in chunks[k]:
                    f.write(json.dumps(x) + "\n")
            scratch = self.path("cwd-%s-%d" % (prop, k))
            os.makedirs(scratch, exist_ok=True)
            e = dict(os.environ, PYTHONPATH=HARNESS, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_SCRATCH=scratch,
                     VERIF_LACKING=self.path("lacking"))
            p = subprocess.run([PYPY, os.path.join(HARNESS, script), prop, src, out, str(self.seed * 1000 + k)] + [str(x) for x in extra],
                               cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            if p.returncode != 0 or not os.path.exists(out):
                raise Machinery("recorder %s failed:\n%s" % (script, p.stdout.decode(errors="replace")[-3000:]))
            with open(out) as f:
                return [json.loads(x) for x in f]
        try:
            with ThreadPoolExecutor(procs) as ex:
                return [r for part in ex.map(one, range(procs)) for r in part]
        except subprocess.TimeoutExpired:
            raise Machinery("recorder %s timed out" % script)

    # ------------------------------------------------------------ verdicts
    def judge(self, module, recs, consts=None, timeout=3000, workers=None):
        """TLC judges every record; collects the violated clauses"""
        if not recs:
            raise Machinery("nothing recorded")
        path = self.path("trace-%s-%d.ndjson" % (module, self.records))
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        try:
            res = self.tlc(module, dict(Prop=self.prop, **(consts or {})), env=dict(TRACE=path), timeout=timeout, workers=workers)
        except Unreadable as e:
            # the same answers always make the same record, so this is about the answers the code gave
            if "Overflow" in str(e.why) and not wild(recs[e.record - 1]):
                raise
            self.bad.append(dict(clause="record.readable", info=str(e.why), key="", record=recs[e.record - 1], module=module))
            self.records += len(recs)
            return {}
        v = {x["i"]: x for x in res.get("V", [])}
        if set(v) != set(range(1, len(recs) + 1)):
            raise Machinery("%s judged %d of %d records" % (module, len(v), len(recs)))
        for i in sorted(v):
            self.clauses += v[i].get("n", 0)
            for b in v[i]["bad"]:
                self.bad.append(dict(clause=b["clause"], info=b["info"], key=b.get("key", ""), record=recs[i - 1], module=module))
        self.records += len(recs)
        if not self.samples:
            self.samples = [shorten(recs[0]), shorten(recs[len(recs) // 2])]
        return v

    # ------------------------------------------------------------ finish
    def finish(self):
        known = known_findings(self.prop)
        new, old = [], []
        for b in self.bad:
            k = [x for x in known if x[0] in b["clause"] + " " + b["key"] + " " + b["info"]]
            (old if k else new).append((b, k[0][1] if k else ""))
        for text in sorted({t for _, t in old}):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.records, samples=self.samples)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new and os.path.exists(self.path("lacking")):
            with open(self.path("lacking")) as f:
                raise Machinery("the code needs parts of libraries that are not modelled here: %s" % ", ".join(sorted(set(f.read().split()))))
        if new:
            rp = os.path.join(VERIF, "build", "replay")
            os.makedirs(rp, exist_ok=True)
            rp = os.path.join(rp, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump([b for b, _ in new[:20]], f, indent=1)
            shown = {}
            for b, _ in new:
                shown.setdefault(b["clause"], b["info"])
            for c, i in shown.items():
                print("failed clause %s: %s" % (c, i[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("held property=%s records=%d states=%d wall=%.1fs" % (self.prop, self.records, self.states, time.time() - self.t0))
        return 0

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.dir)
        elif self.dir.startswith(tempfile.gettempdir() + "/verif-"):
            shutil.rmtree(self.dir, ignore_errors=True)


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple, set)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    return str(v)


def shorten(x, depth=0):
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in x.items()} if depth < 6 else "..."
    if isinstance(x, list):
        y = [shorten(v, depth + 1) for v in x[:2]]
        return y + ["... %d more" % (len(x) - 2)] if len(x) > 2 else y
    return x


def known_findings(prop):
    """lines `known: property=<id> match="<text>" <what fails>` of known_findings.txt"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) match="([^"]+)" (.*)', line)
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3).strip()))
    return out
