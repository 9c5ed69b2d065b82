"""Recorders for the dispatching model: C17..C20, C27..C30.

usage: rec_solver.py PROPERTY ITEMS.ndjson OUT.ndjson SEED
An item is an instance (spec/InstanceGen.tla), a world (spec/World.tla) or a
request for a part of a shipped data set.
"""
import random
import sys

from common import *  # noqa: F401,F403
import common


# ---------------------------------------------------------------- instances

def ident(x, numeric):
    return int(x) if numeric == "T" else x


def from_milli(v):
    return v // 1000 if v % 1000 == 0 else v / 1000.0


def obj(x):
    return x if isinstance(x, dict) else {}


def python_instance(I):
    """train_sets and timetable of the code under test for an instance"""
    T = lambda x: ident(x, I["tnum"])
    S = lambda x: ident(x, I["snum"])
    jd = {}
    for g in I["jd"]:
        jd.setdefault(S(g["s"]), {}).setdefault(S(g["t"]), []).append([T(x) for x in g["g"]])
    single = {}
    for g in I["single"]:
        single.setdefault((S(g["s"]), S(g["t"])), []).append([T(g["j"]), T(g["k"])])
    rnd = {}
    for g in I["round"]:
        rnd.setdefault(S(g["s"]), []).append([T(g["j"]), T(g["k"])])
    track = {}
    for g in I["track"]:
        track.setdefault(S(g["s"]), []).append([T(x) for x in g["g"]])
    switch = {}
    for g in I["switch"]:
        switch.setdefault(S(g["s"]), []).append({T(g["j"]): g["r"], T(g["k"]): g["q"]})
    ts = dict(J=[T(x) for x in I["J"]], Paths={T(k): [S(x) for x in v] for k, v in I["paths"].items()},
              Jd=jd, Josingle=single, Jround=rnd, Jtrack=track, Jswitch=switch)
    if I["skip"] or len(I["J"]) % 2:
        ts["skip_station"] = {T(x["j"]): S(x["s"]) for x in I["skip"]}
    if I["hasaddsw"] == "T":
        ts["add_swithes_at_s"] = [S(x) for x in I["addsw"]]
    m = lambda d: {k: from_milli(v) for k, v in obj(d).items()}
    taus = dict(headway=m(I["headway"]), stop=m(I["stop"]), prep=m(I["prep"]), res=from_milli(I["res"]))
    taus["pass"] = m(I["pass"])
    tt = dict(tau=taus, initial_conditions=m(I["init"]), penalty_weights=m(I["weight"]))
    if I["hassched"] == "T":
        tt["schedule"] = m(I["sched"])
    return ts, tt


def spec_instance(ts, tt, dmax, extra=None):
    """the instance (as the specification sees it) of Python train sets"""
    st = str
    I = dict(J=[st(j) for j in ts["J"]], paths={st(j): [st(s) for s in p] for j, p in ts["Paths"].items()},
             jd=[dict(s=st(s), t=st(t), g=[st(x) for x in g]) for s in ts["Jd"] for t in ts["Jd"][s] for g in ts["Jd"][s][t]],
             single=[dict(s=st(k[0]), t=st(k[1]), j=st(p[0]), k=st(p[1])) for k, v in ts["Josingle"].items() for p in v],
             round=[dict(s=st(s), j=st(p[0]), k=st(p[1])) for s, v in ts["Jround"].items() for p in v],
             track=[dict(s=st(s), g=[st(x) for x in g]) for s, v in ts["Jtrack"].items() for g in v],
             switch=[], skip=[dict(j=st(j), s=st(s)) for j, s in ts.get("skip_station", {}).items()],
             addsw=[st(s) for s in ts.get("add_swithes_at_s", [])], hasaddsw="T" if "add_swithes_at_s" in ts else "F",
             hassched="T" if "schedule" in tt else "F")
    for s, v in ts["Jswitch"].items():
        for p in v:
            (j, r), (k, q) = list(p.items())
            I["switch"].append(dict(s=st(s), j=st(j), r=r, k=st(k), q=q))
    m = lambda d: {k: num(v) for k, v in d.items()}
    t = tt["tau"]
    I.update(headway=m(t["headway"]), stop=m(t["stop"]), prep=m(t["prep"]), res=num(t["res"]), init=m(tt["initial_conditions"]),
             sched=m(tt.get("schedule", {})), weight=m(tt["penalty_weights"]), dmax=num(dmax), unit=1000)
    I["pass"] = m(t["pass"])
    I.update(extra or {})
    return I


# ---------------------------------------------------------------- programs

def micro(x):
    """number -> integer millionths (rounded; for coefficients that need not be multiples)"""
    try:
        y = round(float(x) * 1e6)
        return int(y) if abs(y) < 2000000000 else NOTNUM
    except Exception:
        return NOTNUM


def program(prob):
    """the program in the specification's terms; constraints in thousandths"""
    vs = prob.variables()
    ix = {id(v): i + 1 for i, v in enumerate(vs)}
    P = dict(vars=[dict(n=v.name, lo=num(v.lowBound), hi=num(v.upBound), int="T" if v.cat == "Integer" else "F") for v in vs],
             cons=[], obj=[], oc=0)
    for n, c in prob.constraints.items():
        P["cons"].append(dict(n=n, s=int(c.sense), c=num(c.constant), t=[dict(v=ix[id(v)], k=num(k)) for v, k in c.items()]))
    if prob.objective is not None:
        P["obj"] = [dict(v=ix[id(v)], k=micro(k)) for v, k in prob.objective.items()]
        P["oc"] = micro(prob.objective.constant)
    return P


class Model:
    """instance pushed through the code under test"""

    def __init__(self, I, cat="Integer", ts=None, tt=None):
        import railway_solvers.railway_solvers as rs
        self.rs, self.I = rs, I
        self.ts, self.tt = python_instance(I) if ts is None else (ts, tt)
        self.dmax = from_milli(I["dmax"])
        self.prob, self.err = call(rs.create_linear_problem, self.ts, self.tt, self.dmax, cat)
        self.P, self.dv = None, []
        if not self.err:
            self.P, self.err = call(program, self.prob)
        dvars, err = call(rs.delay_varibles, self.ts, self.dmax, cat)
        self.err = self.err or err
        self.delays = {}
        if not err:
            for j, d in dvars.items():
                for s, v in d.items():
                    self.delays[(str(j), str(s))] = v

    def order(self):
        """program variable (0: not used in the program) of each decision, in the specification's order"""
        byname = {v["n"]: i + 1 for i, v in enumerate(self.P["vars"])} if self.P else {}
        return [dict(j=j, s=s, v=byname.get(v.name, 0)) for (j, s), v in self.delays.items()]


def decisions(I):
    gives = {(g["s"], g["j"]) for g in I["round"]}
    skips = {(g["j"], g["s"]) for g in I["skip"]}
    return [(j, s) for j in I["J"] for s in I["paths"][j] if (j, s) not in skips and (s, j) not in gives]


def solve_random(M, rnd, k, D=None):
    """k vectors of decisions from solving the built program under random objectives"""
    import pulp
    D = D or decisions(M.I)
    out = []
    for _ in range(k):
        p, err = call(M.rs.create_linear_problem, M.ts, M.tt, M.dmax, "Integer")
        if err:
            break
        vs = {v.name: v for v in p.variables()}
        dv = [vs.get(M.delays[x].name) if x in M.delays else None for x in D]
        p.objective = pulp.lpSum([rnd.choice([1, 1, 2, 3, 0, -1]) * v for v in dv if v is not None])
        _, err = call(p.solve)
        if err or p.status != 1:
            break
        out.append([1000 * int(round(v.varValue)) if v is not None and v.varValue is not None else 0 for v in dv])
    return out


def probes(M, rnd, grid):
    """sets of decision vectors to be examined: a base and coordinates to vary over their whole range"""
    n = len(decisions(M.I))
    steps = M.I["dmax"] // M.I["unit"]
    if M.I.get("small") == "T":
        return [dict(base=[0] * n, vary=list(range(1, n + 1)))]
    out = []
    bases = solve_random(M, rnd, 3)
    bases.append([0] * n)
    for _ in range(3):
        bases.append([M.I["unit"] * rnd.randrange(steps + 1) for _ in range(n)])
    for b in bases:
        k = 1
        while (steps + 1) ** (k + 1) <= grid and k < n:
            k += 1
        for _ in range(3):
            out.append(dict(base=b, vary=sorted(rnd.sample(range(1, n + 1), min(k, n)))))
    return out


def dice(I, rnd, k):
    """starting points and tosses for plans that the specification makes conflict-free"""
    n = len(decisions(I))
    steps = I["dmax"] // I["unit"]
    out = []
    for _ in range(k):
        p = rnd.choice([0.0, 0.1, 0.4])
        out.append(dict(base=[I["unit"] * rnd.randrange(steps // 2 + 1) if rnd.random() < p else 0 for _ in range(n)],
                        bits=[rnd.randrange(2) for _ in range(6 * n + 10)]))
    return out


def C18(I, rnd):
    M = Model(I, rnd.choice(["Integer", "Integer", "Continuous"]))
    r = dict(I=I, err=M.err, P=M.P or {}, dv=M.order() if not M.err else [], probes=[], dice=[])
    if not M.err:
        r["probes"] = probes(M, rnd, 120)
        r["dice"] = dice(I, rnd, 6 if I["small"] == "T" else 9)
    return [r]


C19 = C18


def C17(I, rnd):
    cat = rnd.choice(["Integer", "Continuous"])
    M = Model(I, cat)
    r = dict(I=I, err=M.err, cat=cat, P=M.P or {}, dv=[], e=[])
    if M.err:
        return [r]
    T = lambda x: ident(x, I["tnum"])
    S = lambda x: ident(x, I["snum"])
    for (j, s), v in M.delays.items():
        r["dv"].append(dict(j=j, s=s, n=v.name, lo=num(v.lowBound), hi=num(v.upBound), int="T" if v.cat == "Integer" else "F"))
    for j in I["J"]:
        for s in I["paths"][j]:
            v, err = call(M.rs.earliest_dep_time, M.ts["Paths"], M.tt, T(j), S(s))
            r["e"].append(dict(j=j, s=s, err=err, v=0 if err else num(v)))
    return [r]


def assign(M, rnd, style):
    """a solution: random delays and orders, written to the program's variables or handed over separately.
    returns (delays of the decisions in milli-minutes, external sample or [])"""
    I = M.I
    steps = I["dmax"] // I["unit"]
    d = {x: I["unit"] * rnd.randrange(steps + 1) for x in decisions(I)}
    if rnd.random() < 0.2:
        d = {x: 0 for x in d}
    byname = {v.name: x for x, v in M.delays.items()}
    ext = {}
    noise = rnd.choice([0.0, 0.0, 2e-8, -2e-8]) if style == "solved" else 0.0
    for v in M.prob.variables():
        x = byname.get(v.name)
        val = d[x] / 1000.0 if x in d else float(rnd.randrange(2))
        if style == "solved":
            v.varValue = val + (noise if x in d else 0.0)
        else:
            v.varValue = rnd.choice([None, 0.0, 7.0])
            ext[v.name] = val if val != int(val) else rnd.choice([int(val), val])
    for x in d:  # a decision that the program does not mention is free: undelayed
        if x not in M.delays or M.delays[x].name not in [v.name for v in M.prob.variables()]:
            d[x] = 0
    return d, ext if style != "solved" else []


def C20(I, rnd):
    M = Model(I)
    r = dict(I=I, err=M.err, P=M.P or {}, dv=[], sol=[], sense=0)
    if M.err:
        return [r]
    r["sense"] = integer(M.prob.sense)
    T = lambda x: ident(x, I["tnum"])
    S = lambda x: ident(x, I["snum"])
    r["dv"] = [dict(j=j, s=s, n=v.name) for (j, s), v in M.delays.items()]
    for style in ("solved", "external"):
        d, ext = assign(M, rnd, style)
        imp = []
        for (j, s) in decisions(I):
            a = (M.prob, M.tt, T(j), S(s), M.dmax) + ((ext,) if style != "solved" else ())
            v, err = call(M.rs.impact_to_objective, *a)
            imp.append(dict(err=err, v=0 if err else micro(v)))
        if style == "solved":
            o, err = call(lambda: M.prob.objective.value())
            o = NOTNUM if err else micro(o)
        else:
            o, err = call(M.rs.get_objective, M.prob, ext)
            o = NOTNUM if err else micro(o)
        r["sol"].append(dict(how=style, d=[d[x] for x in decisions(I)], imp=imp, obj=o))
    return [r]


ABSENT = -777777777


def C27(I, rnd):
    import datetime
    import helpers
    out = []
    ref = datetime.datetime(2020, 1, 1, rnd.choice([14, 16, 0]), rnd.choice([0, 0, 30]))
    for style in ("solved", "external"):
        M = Model(I)
        r = dict(I=I, err=M.err, how=style, d=[], out=[])
        out.append(r)
        if M.err:
            continue
        d, ext = assign(M, rnd, style)
        r["d"] = [d[x] for x in decisions(I)]
        # running times as given to the report are not rounded
        taus = dict(M.tt["tau"])
        taus["pass"] = {k: v + rnd.choice([0, 0.4, -0.3, 0.25]) for k, v in taus["pass"].items()}
        skip = M.ts.get("skip_station", {})
        a = (M.prob, M.tt, M.ts, taus, skip, M.dmax, ref) + ((ext,) if style != "solved" else ())
        v, r["err"] = call(helpers.print_optimisation_results, *a)
        if r["err"]:
            continue
        t = lambda x: NOTNUM if not isinstance(x, datetime.datetime) else num((x - ref).total_seconds() / 60.0)
        for j, rows in v.items():
            at = []
            for s, e in rows.items():
                g = lambda k, f: f(e[k]) if k in e else ABSENT
                at.append(dict(s=str(s), arr=g("arrive", t), carr=g("conflicted_arrive", t), dep=g("departure", t),
                               cdep=g("conflicted_departure", t), del_=0, imp=g("impact_to_objective", micro)))
                del at[-1]["del_"]
                at[-1]["del"] = g("secondary delay", num)
            r["out"].append(dict(j=str(j), at=at))
    return out


def C28(I, rnd):
    import re
    import helpers
    if I.get("qubo"):
        import dimod
        vs = ["x%d" % i for i in range(rnd.randrange(1, 9))]
        lin = {v: rnd.choice([0, 0.0, 1, -2.5, 3]) for v in vs}
        quad = {(a, b): rnd.choice([0, 0.0, 1, -1, 2.5]) for i, a in enumerate(vs) for b in vs[:i] if rnd.random() < 0.6}
        bqm = dimod.BinaryQuadraticModel(lin, quad, rnd.choice([0.0, 4.0]), rnd.choice(["BINARY", "SPIN"]))
        import railway_solvers.railway_solvers as rs
        rec = dict(kind="qubo", h=[num(x) for x in lin.values()], q=[num(x) for x in quad.values()], dv=[], P=dict(vars=[], cons=[]))
        for k, f in (("lin", rs.count_linear_fields), ("quad", rs.count_quadratic_couplings)):
            v, err = call(f, bqm)
            rec[k] = dict(err=err, v=0 if err else integer(v))
        return [rec]
    M = Model(I, rnd.choice(["Integer", "Continuous"]))
    r = dict(kind="model", I=I, err=M.err, P=M.P or {}, dv=[dict(n=v.name) for v in M.delays.values()],
             size=dict(err="", v=[]), shown=dict(err="", v=[]), spoilt=[])
    if M.err:
        return [r]
    v, err = call(helpers.count_vars, M.prob)
    r["size"] = dict(err=err, v=[] if err else seq(v, integer))
    assign(M, rnd, "solved")
    delays = {v.name for v in M.delays.values()}
    order = [v for v in M.prob.variables() if v.name not in delays]
    for v in order:
        v.varValue = float(rnd.randrange(2))

    def shown():
        with quiet() as o:
            helpers.check_count_vars(M.prob)
        return [int(x) for x in re.findall(r"\d+", o.getvalue())]
    v, err = call(shown)
    r["shown"] = dict(err=err, v=[] if err else v)
    for _ in range(3):
        if order:
            o = rnd.choice(order)
            keep = o.varValue
            o.varValue = rnd.choice([0.5, 0.25, 2.0, -1.0, 0.9, 0.1])
            v, err = call(shown)
            r["spoilt"].append(dict(err=err, v=num(o.varValue), n=o.name))
            o.varValue = keep
    return [r]


def text_table(d, conv=num):
    """table with text keys (the parameters of the model)"""
    return {str(k): conv(v) for k, v in d.items()} or {"~": 0}


def chain(w, delays, dmax, cat="Integer"):
    """files -> timetables -> parameters, train sets -> disturbances -> program, as the scripts do it"""
    import data_formatting.data_formatting as df
    import helpers
    path = os.path.join(os.environ["VERIF_SCRATCH"], "timetable.csv")
    with open(path, "w", encoding="utf-8") as f:
        f.write(csv_text(file_rows(w)))
    network = shipped_network().copy() if "src" in w else network_df(w)
    stations = stations_dict(w)
    td = helpers.build_timetables(path, False, stations, network)
    taus = helpers.make_taus(td, stations, 1)
    skip = df.get_skip_stations(td)
    tt = helpers.make_timetable(td, stations, skip, hm(w), taus)
    for d in delays:
        tt["initial_conditions"] = df.add_delay(tt["initial_conditions"], d["no"], d["d"] // 1000)
    ts = helpers.make_train_set(td, stations, network, skip)
    return Model(dict(dmax=dmax), cat, ts, tt)


def C30(w, rnd):
    w = resolve(w)
    nos = [t["no"] for t in w["trains"]]
    delays = [dict(no=rnd.choice(nos + [77, 7, 10, 4]), d=1000 * rnd.choice([1, 2, 3, 5, 8, 15])) for _ in range(rnd.choice([0, 1, 2, 3]))]
    dmax = 1000 * rnd.choice([3, 5, 8, 12, 20, 40])
    w2 = {k: w[k] for k in ("trains", "stations", "links", "tref")}
    if "src" in w:
        served = {r["b"] for t in w["trains"] for r in t["rows"]}
        w2["stations"] = [s for s in w["stations"] if served & set(s["tracks"])]
    r = dict(w=w2, delays=delays, dmax=dmax, err="", P={}, dv=[], sols=[], toss=[], tau={})
    M, r["err"] = call(chain, w, delays, dmax)
    if not r["err"]:
        r["err"] = M.err
    if r["err"]:
        return [r]
    r["tau"], r["err"] = call(lambda: {k: text_table(M.tt["tau"][k]) for k in ("pass", "stop", "prep", "headway")})
    r["P"], r["dv"] = M.P, M.order()
    D = [(d["j"], d["s"]) for d in r["dv"]]
    M.I = dict(M.I, J=[], paths={}, round=[], skip=[])
    bases = [[0] * len(D)]
    sols, err = call(solve_random, M, rnd, 4, D)
    bases += sols or []
    bases.append([1000 * rnd.randrange(dmax // 1000 + 1) for _ in D])
    for b in bases:
        for _ in range(2):
            r["sols"].append(dict(at=[dict(j=x[0], s=x[1], v=v) for x, v in zip(D, b)], vary=[rnd.randrange(1000) for _ in range(2)]))
    for _ in range(8):
        p = rnd.choice([0.0, 0.1, 0.4])
        r["toss"].append(dict(base=[1000 * rnd.randrange(dmax // 2000 + 1) if rnd.random() < p else 0 for _ in range(400)],
                              bits=[rnd.randrange(2) for _ in range(400)]))
    return [r]


def name(x):
    return "~none" if x is None else str(x)


def nest(paths):
    d = {}
    for p in paths:
        e = d
        for k in p[:-2]:
            e = e.setdefault(k, {})
        e[p[-2]] = p[-1]
    return d


def unnest(d, depth):
    if depth == 0:
        return [[d]] if isinstance(d, str) else [["~" + type(d).__name__]]
    if not isinstance(d, dict):
        return [["~" + str(d)]]
    return [[str(k)] + r for k, v in d.items() for r in unnest(v, depth - 1)]


def C29(I, rnd):
    import railway_solvers.railway_solvers as rs
    ts, _ = python_instance(I)
    T = lambda x: ident(x, I["tnum"])
    S = lambda x: ident(x, I["snum"])
    q = []

    def ask(f, conv, fun, *a, **kw):
        v, err = call(fun, *a)
        q.append(dict(kw, f=f, err=err, v="" if err else conv(v)))
    stations = sorted({s for p in I["paths"].values() for s in p})
    for j in I["J"]:
        for s in stations:
            if s in I["paths"][j]:
                ask("prev", name, rs.previous_station, ts["Paths"][T(j)], S(s), j=j, s=s)
                ask("next", name, rs.subsequent_station, ts["Paths"][T(j)], S(s), j=j, s=s)
                for k in I["J"]:
                    if k != j and s in I["paths"][k]:
                        ask("overtake", boolean, rs.can_MO_on_line, T(j), T(k), S(s), ts, j=j, k=k, s=s)
                        ask("from-in", name, rs.departure_station4switches, S(s), T(j), {T(j): "in", T(k): "out"}, ts, j=j, s=s)
                        ask("from-out", name, rs.departure_station4switches, S(s), T(j), {T(k): "in", T(j): "out"}, ts, j=j, s=s)
            ask("gives", name, rs.subsequent_train_at_Jround, ts, T(j), S(s), j=j, s=s)
            ask("takes", name, rs.previous_train_from_Jround, ts, T(j), S(s), j=j, s=s)
            ask("skip", boolean, rs.skip_station, T(j), S(s), ts, j=j, s=s)
            for k in I["J"]:
                if k != j:
                    ask("bothin", boolean, rs.are_two_trains_entering_via_the_same_switches, ts, S(s), T(j), T(k), j=j, k=k, s=s)
        for k in I["J"]:
            ask("stock", boolean, rs.not_the_same_rolling_stock, T(j), T(k), ts, j=j, k=k) if k != j else None
            for g in ([x["g"] for x in I["track"]], [x["g"] for x in I["jd"]], [], [[j], [k]], [[j, j], [k]]):
                ask("pair", boolean, rs.occurs_as_pair, T(j), T(k), [[T(x) for x in y] for y in g], j=j, k=k, g=g)
    for _ in range(4):
        depth = rnd.randrange(1, 5)
        pool = sorted({tuple(rnd.choice("abc") for _ in range(depth)) for _ in range(7)})
        rnd.shuffle(pool)
        new, old = pool[0], pool[1:]
        mk = lambda p: list(p) + ["v" + "".join(p)]
        d1, d2 = nest([mk(p) for p in old]), nest([mk(new)])
        v, err = call(rs.update_dictofdicts, d1, d2)
        back = [] if err else unnest(v if rnd.random() < 0.5 else d1, depth)
        q.append(dict(f="merge", err=err, old=[mk(p) for p in old], new=[mk(new)], v=back))
    return [dict(I=I, q=q)]


def main():
    prop, src, out, seed = sys.argv[1:5]
    rnd = random.Random(int(seed))
    recs = []
    with open(src) as f:
        for line in f:
            recs += globals()[prop](json.loads(line), rnd)
    dump(out, recs)


if __name__ == "__main__":
    main()
