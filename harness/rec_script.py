"""Recorder for the scenario scripts (C32).

usage: rec_script.py C32 CONFIGS.ndjson OUT.ndjson SEED
Each configuration (spec/ScriptGen.tla) is run in a directory of its own with
reduced copies of the shipped data; the scripts' calls of model construction
and solvers are recorded on the way, their files and output afterwards.
"""
import datetime
import pickle
import random
import runpy
import signal
import sys

from common import *  # noqa: F401,F403
from rec_session import digest

SCRIPT = dict(real="solve_real_problem.py", glc="solve_KO_GLC_problems.py", wisla="wisla_problems.py")
KEEP = 4      # trains of the models that are really solved


def dig(x):
    return digest(x)


# ---------------------------------------------------------------- data

def sections(path):
    """head line and the trains of a timetable file: [(number, lines)]"""
    with open(os.path.join(REPO, path), encoding="latin-1", newline="") as f:
        lines = f.read().split("\n")
    out = []
    for x in lines[1:]:
        if x.startswith("####"):
            out.append([x])
        elif out and x.strip():
            out[-1].append(x)
    return lines[0], [(int(s[2].split(";")[0]), s) for s in out]


def shorten(lines, stops):
    """the beginning of a train's route, up to its second important station"""
    body, last, n = [], lines[-1], 0
    for x in lines[5:-1]:
        body.append(x)
        block = x[1:x.index('";')].replace('""', '"') if x.startswith('"') else x.split(";")[0]
        n += block in stops
        if n == 2:
            return lines[:5] + body + [last]
    return lines


def prepare(f, rnd):
    """./data of the run: all timetables cut down, station tables told apart"""
    for d in ("data/KO_GLC", "solutions_quantum/data4diagrams", "solutions_quantum/wisla/data4diagrams", "results_KO_GLC"):
        os.makedirs(d, exist_ok=True)
    os.symlink(os.path.join(REPO, "data/network_paths.ods"), "data/network_paths.ods")
    stations = sorted({v[0] for v in DATASETS.values()})
    stops = set()
    for i, s in enumerate(stations):
        t = np.load(os.path.join(REPO, s), allow_pickle=True)["arr_0"][()]
        stops |= {b for v in t.values() for b in v}
        np.savez(s, {(k + "abcd"[i] if k in ("KO", "GLC", "Ty") else k): v for k, v in t.items()})
    for d in DATASETS.values():
        head, trains = sections(d[1])
        nos = [n for n, _ in trains]
        if f["script"] == "glc":
            keep = set(f["announced"]) | set(rnd.sample(nos, 1))
        else:
            a = [n for n in f["announced"] if n in nos]
            keep = {n for i, n in enumerate(a) if i % f["per"] in (f["k"] - 1, f["k"] % f["per"])}
            keep |= set(rnd.sample(nos, min(len(nos), max(2, 7 - len(keep)))))
            pairs = [n for n in nos if 10 * n + 9 in nos]      # rolling stock that comes back under another number
            keep |= {x for n in rnd.sample(pairs, min(1, len(pairs))) for x in (n, 10 * n + 9)}
        with open(d[1], "w", encoding="latin-1", newline="") as out:
            out.write("\n".join([head] + [x for n, s in trains if n in keep for x in (shorten(s, stops) if f["script"] == "glc" else s)]) + "\n")


def clock(m):
    return "%02d:%02d" % (m // 60, m % 60)


def reference(f):
    """the undisturbed timetable and the train sets of the announced files"""
    import data_formatting.data_formatting as df
    import helpers as h
    net = h.load_data_paths("data/network_paths.ods")
    st = h.load_important_stations(f["files"][0])
    td = h.build_timetables(f["files"][1], False, st, net)
    skip = df.get_skip_stations(td)
    tt = h.make_timetable(td, st, skip, clock(f["tref"]), h.make_taus(td, st, 1))
    return dict(ts=h.make_train_set(td, st, net, skip), tt=tt, taus=h.make_taus(td, st, 0), skip=skip)


# ---------------------------------------------------------------- wires

def few(ts, keep):
    """the train sets of some trains only"""
    k = set(keep)
    out = dict(ts, J=[j for j in ts["J"] if j in k], Paths={j: p for j, p in ts["Paths"].items() if j in k},
               skip_station={j: s for j, s in ts["skip_station"].items() if j in k})
    g = lambda gs: [[j for j in x if j in k] for x in gs if len([j for j in x if j in k]) > 1]
    out["Jd"] = {s: {t: g(x) for t, x in y.items()} for s, y in ts["Jd"].items()}
    out["Josingle"] = {s: g(x) for s, x in ts["Josingle"].items()}
    out["Jround"] = {s: [x for x in y if set(x) <= k] for s, y in ts["Jround"].items()}
    out["Jtrack"] = {s: g(x) for s, x in ts["Jtrack"].items()}
    out["Jswitch"] = {s: [x for x in y if set(x) - {"in", "out", "noMR"} <= k] for s, y in ts["Jswitch"].items()}
    return out


def some(ts, i, k):
    """a few trains that follow each other, others for the next model, at times led by a pair that has something else in common"""
    g = max([x for y in ts["Jd"].values() for z in y.values() for x in z] or [[]], key=len)
    J = list(g) + [j for j in ts["J"] if j not in g]
    n = i % max(1, len(g) - 2)
    J = J[n:] + J[:n]
    r = random.Random("%d %d" % (i, k))
    kinds = [[x for y in ts["Jround"].values() for x in y], [list(set(x) - {"in", "out", "noMR"}) for y in ts["Jswitch"].values() for x in y],
             [x for y in ts["Josingle"].values() for x in y], [x for y in ts["Jtrack"].values() for x in y]]
    kinds = [x for x in kinds if x]
    if kinds and r.random() < 0.75:
        first = [j for j in r.choice(kinds[0] if ts["Jround"] and r.random() < 0.5 else r.choice(kinds)) if j in J][:2]
        J = first + [j for j in J if j not in first]
    return J[:KEEP]


class Wires:
    """records model construction and solver calls of the running script"""

    def __init__(self, f, rnd):
        import dimod
        import dwave.system as ds
        import neal
        import pulp.pulp as pl
        import railway_solvers.railway_solvers as rs
        import railway_solvers.railway_solvers.linear_solver as ls
        self.models, self.solves, self.samples = [], [], []
        real = ls.create_linear_problem

        def create(train_sets, timetable, d_max, cat="Integer", **kw):
            m = dict(ts=train_sets, tt=copy_of(timetable), dmax=d_max, cat=cat)
            small = train_sets if f["script"] == "wisla" else few(train_sets, some(train_sets, len(self.models), f["case"] * 10 + f["k"]))
            m["prob"] = real(small, timetable, d_max, cat, **kw)
            self.models.append(m)
            return m["prob"]
        for mod in (ls, rs):
            mod.create_linear_problem = create

        solve = pl.LpSolver.actualSolve

        def actual(solver, lp, **kw):
            import pulp
            aim = lp.objective      # some solution, not always the best one: its value is to be reported as it is
            lp.objective = pulp.lpSum([rnd.choice([-1, 0, 1]) * v for v in lp.variables()])
            r = solve(solver, lp, **kw)
            lp.objective = aim
            self.solves.append(dict(m=self.which(lp), solver=solver.name, tl=num(solver.timeLimit or 0), optimal=boolean(lp.status == 1)))
            return r
        pl.LpSolver.actualSolve = actual

        def bits(bqm):
            return [{v: rnd.randint(0, 1) for v in bqm.variables} for _ in range(2)]

        def ints(cqm):
            return [{v: rnd.randint(int(cqm.lower_bound(v)), int(cqm.upper_bound(v))) for v in cqm.variables} for _ in range(2)]

        def keep(make):
            def hook(p):
                rows = make(p)
                self.samples.append(dict(p=p, rows=rows, m=len(self.models)))
                return [dict(r) for r in rows]
            return hook
        neal.SHIM_SAMPLE_HOOK = ds.SHIM_BQM_HOOK = keep(bits)
        ds.SHIM_CQM_HOOK = keep(ints)
        self.calls = lambda: list(neal.CALLS) + list(ds.CALLS)
        self.dimod, self.rs = dimod, rs

    def which(self, lp):
        for i, m in enumerate(self.models):
            if m["prob"] is lp:
                return i + 1
        return 0


def copy_of(x):
    return {k: copy_of(v) for k, v in x.items()} if isinstance(x, dict) else [copy_of(v) for v in x] if isinstance(x, list) else x


def arguments(f, **kw):
    f = dict(f, **kw)
    a = []
    if f["script"] != "wisla":
        a += [] if f["case"] == (0 if f["script"] == "real" else 1) and f["short"] == "T" else ["--case", str(f["case"])]
        a += [] if f["cat"] == "Integer" and f["short"] == "T" else ["--category", f["cat"]]
    if f["lp"]:
        a += ["--solve_lp", f["lp"]]
    if f["quantum"]:
        a += ["--solve_quantum", f["quantum"]]
    if not (f["mint"] == 5 and f["short"] == "T"):
        a += ["--min_t", str(f["mint"])]
    if f["script"] == "real":
        a += [] if f["runs"] == 1 and f["short"] == "T" else ["--runs", str(f["runs"])]
        a += [] if f["pen"] == 1000 and f["short"] == "T" else ["--penalty", str(f["pen"] / 1000.0)]
    if f["show"] == "T":
        a += ["--show_timetable", "1"]
    if f["tlim"]:
        a += ["--time_limit", str(f["tlim"] / 1000.0)]
    return a


def tree():
    out = {}
    for d in ("solutions_quantum", "results_KO_GLC", "."):
        for p, dirs, names in os.walk(d):
            if d == ".":
                dirs[:] = []
            for n in names:
                q = os.path.normpath(os.path.join(p, n))
                with open(q, "rb") as g:
                    out[q] = g.read()
    out.pop("update_tables.pkl", None)
    return out


def run(f, **kw):
    """(error, output) of the script"""
    sys.argv = [SCRIPT[f["script"]]] + arguments(f, **kw)
    err = ""
    with quiet() as out:
        signal.alarm(900)
        try:
            runpy.run_path(os.path.join(REPO, SCRIPT[f["script"]]), run_name="__main__")
        except (Exception, SystemExit) as e:
            err = type(e).__name__
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc(file=sys.__stderr__)
        finally:
            signal.alarm(0)
    return err, out.getvalue()


# ---------------------------------------------------------------- what happened

def initial(d):
    return [dict(n=int(str(k).split("_")[0]), s="_".join(str(k).split("_")[1:]), v=num(v)) for k, v in d.items()]


def wisla(m):
    """the hand-written instance in the specification's terms"""
    ts, tt = m["ts"], m["tt"]
    kv = lambda d: [dict(k=string(k), v=num(v)) for k, v in d.items()]
    pairs = lambda d: [dict(s=str(s), a=x[0], b=x[1]) for s, gs in d.items() for x in gs]
    return dict(paths=[dict(j=j, p=[str(s) for s in p]) for j, p in ts["Paths"].items()], skip=[dict(j=j, s=str(s)) for j, s in ts["skip_station"].items()],
                J=list(ts["J"]), jd=[dict(s=str(s), t=str(t), g=list(g)) for s, y in ts["Jd"].items() for t, gs in y.items() for g in gs],
                single=[dict(s=str(s), t=str(t), a=g[0], b=g[1]) for (s, t), gs in ts["Josingle"].items() for g in gs],
                round=pairs(ts["Jround"]), more=[str(k) for k in ("Jtrack", "Jswitch") if ts[k]], **{"pass": kv(tt["tau"]["pass"])}, headway=kv(tt["tau"]["headway"]),
                prep=kv(tt["tau"]["prep"]), stop=kv(tt["tau"]["stop"]), init=kv(tt["initial_conditions"]), sched=kv(tt["schedule"]), weight=kv(tt["penalty_weights"]))


def value(prob):
    v, err = call(prob.objective.value)
    return None if err else v


def model(f, m):
    ts, tt = m["ts"], m["tt"]
    vs = [v.name for v in m["prob"].variables()]
    o = len([n for n in vs if n.startswith(("z_", "y_"))])
    r = dict(dmax=num(m["dmax"]), cat=string(m["cat"]), size=[o, len(vs) - o, len(m["prob"].constraints)], obj=NOTNUM)
    v = value(m["prob"])
    if v is not None:
        r["obj"] = micro(v)
    if f["script"] == "wisla":
        r["w"] = wisla(m)
    else:
        r.update(J=[int(j) for j in ts["J"]], ts=dig(ts), rest=dig({k: v for k, v in tt.items() if k != "initial_conditions"}), init=initial(tt["initial_conditions"]))
    return r


def micro(x):
    try:
        return max(-2000000000, min(2000000000, int(round(float(x) * 1e5))))
    except Exception:
        return NOTNUM


def best(W, f, s):
    """what the results analysis makes of the rows of a sampler"""
    rs, prob = W.rs, W.models[s["m"] - 1]["prob"]
    p = s["p"]
    if f["quantum"] == "cqm":
        want = rs.convert_to_cqm(prob)
        ss = W.dimod.SampleSet.from_samples(s["rows"], "INTEGER", [p.objective.energy(r) for r in s["rows"]])
    else:
        want, _, interp = rs.convert_to_bqm(prob, {k: v / 1000.0 if v % 1000 else v // 1000 for k, v in f["pens"].items()})
        ss = interp(W.dimod.SampleSet.from_samples(s["rows"], p.vartype, [p.energy(r) for r in s["rows"]]))
    return dig(p), dig(want), rs.get_best_feasible_sample(rs.get_results(ss, prob))


def result(e):
    """a sampled solution without what is measured"""
    k = ("sample", "objective", "feasible", "energy", "feas_constraints")
    return dig({x: e[x] for x in k}) if all(x in e for x in k) else -1


def C32(f, rnd, scratch):
    import helpers
    os.makedirs(scratch)
    os.chdir(scratch)
    prepare(f, rnd)
    ref = {} if f["script"] == "wisla" else reference(f)
    r = dict(f=f, err="", built=[], solves=[], samples=[], files=[], out=[], listed=[], ref={})
    if ref:
        r["ref"] = dict(J=[int(j) for j in ref["ts"]["J"]], ts=dig(ref["ts"]), rest=dig({k: v for k, v in ref["tt"].items() if k != "initial_conditions"}),
                        init=initial(ref["tt"]["initial_conditions"]))
        r["listed"] = [n for n, _ in sections(f["files"][1])[1]]
    W = Wires(f, rnd)
    stored = None
    if f["quantum"] and f["show"] == "T":
        run(f, show="F", lp="")
        stored = {p: b for p, b in tree().items()}
        del W.models[:], W.solves[:], W.samples[:]
    before, calls = tree(), len(W.calls())
    r["err"], text = run(f)
    r["built"] = [model(f, m) for m in W.models]
    r["solves"] = W.solves
    for s, c in zip(W.samples, W.calls()[calls:]):
        got, want, b = best(W, f, s) if 0 < s["m"] else (0, 1, {})
        r["samples"].append(dict(m=s["m"], who=c[0], tl=num(c[1].get("time_limit", 0) or 0), got=got, want=want, best=result(b), obj=micro(b.get("objective")),
                                 feas=boolean(b.get("feasible")), ok=int(b.get("feas_constraints", ({}, -1))[1])))
    ts0 = W.models[-1]["ts"] if W.models else {}
    skip = ref["skip"] if ref else ts0.get("skip_station", {})
    taus = ref["taus"] if ref else W.models[-1]["tt"]["tau"] if W.models else {}
    day = datetime.datetime(2020, 1, 1, f["tref"] // 60, f["tref"] % 60)

    def diagram(sample=None):
        m = W.models[-1]
        a = (m["prob"], m["tt"], m["ts"], taus, skip, f["dmax"] // 1000, day) + ((sample,) if sample is not None else ())
        v, err = call(helpers.print_optimisation_results, *a)
        return -2 if err else dig(v)

    r["stored"] = []
    for p, b in (stored or {}).items():
        v = pickle.loads(b)
        v = [v[k] for k in sorted(v)] if f["script"] == "real" else [v]
        r["stored"].append(dict(path=p, want=[diagram(x["sample"]) for x in v]))
    r["lp_diagram"] = diagram() if r["solves"] and all(s["optimal"] == "T" for s in r["solves"]) and f["show"] == "T" else 0
    for p, b in sorted(tree().items()):
        if before.get(p) == b:
            continue
        e = dict(path=p, keys=[], each=[], whole=0, top=[], inst=[])
        v, err = call(pickle.loads, b)
        if not err and isinstance(v, dict):
            e["whole"] = dig(v)
            e["keys"] = sorted(str(k) for k in v)
            if p.startswith("results_KO_GLC"):
                e["top"] = [dict(k=k, v=string(v.get(k))) for k in ("method", "d_max", "case", "samples")]
                e["inst"] = [dict(k=k, size=[integer(v[k].get(x)) for x in ("order_vars", "int_vars", "constraints")], obj=micro(v[k].get("objective")),
                                  feas=boolean(v[k].get("feasible")), broken=integer(v[k].get("broken_constraints")), best=result(v[k]))
                             for k in sorted(k for k in v if isinstance(k, int))]
            elif "data4diagrams" in p:
                e["each"] = [dig(v[k]) for k in sorted(v, key=str)]
            else:
                e["each"] = [result(v[k]) for k in sorted(v)] if f["script"] == "real" else [result(v)]
        r["files"].append(e)
    numbers = []
    for w in text.replace(",", " ").replace("(", " ").replace(")", " ").split():
        try:
            numbers.append(float(w))
        except ValueError:
            pass
    r["out"] = sorted({micro(x) for x in numbers if abs(x) < 20000})[:3000]
    os.chdir("/")
    return r


def main():
    prop, src, out, seed = sys.argv[1:5]
    base = os.environ["VERIF_SCRATCH"]
    recs = []
    with open(src) as g:
        items = [json.loads(x) for x in g]
    for i, f in enumerate(items):
        path = os.path.join(base, "run-%d-%s" % (i, os.path.basename(src)))
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                r = C32(f, random.Random("%s %s %d" % (seed, json.dumps(f, sort_keys=True), i)), path + ".d")
                with open(path, "w") as g:
                    g.write(json.dumps(r))
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            raise SystemExit("run %d failed: %s" % (i, f))
        with open(path) as g:
            recs.append(json.load(g))
    dump(out, recs)


if __name__ == "__main__":
    main()
