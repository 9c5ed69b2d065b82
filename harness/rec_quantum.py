"""Recorders for the quadratic models and what is done with their samples: C21..C26.

usage: rec_quantum.py PROPERTY ITEMS.ndjson OUT.ndjson SEED
An item is a program (spec/ProgramGen.tla) or an instance (spec/InstanceGen.tla).
"""
import itertools
import random
import sys

from common import *  # noqa: F401,F403
from rec_solver import Model

CLASSES = ["minimal_span", "circulation", "single_line", "minimal_stay", "track_occupation", "switch"]


def unit(x):
    """energies and objectives in sixteenths (all generated coefficients are multiples); anything else is made to differ"""
    try:
        y = float(x) * 16
        r = int(round(y))
    except Exception:
        return NOTNUM
    return max(-100000000, min(100000000, r if abs(y - r) < 1e-4 else r + 7919))


def build(P, real=(), up=False):
    """the program as a PuLP problem; `real` continuous variables, `up` for maximisation"""
    import pulp
    prob = pulp.LpProblem("generated", pulp.LpMaximize if up else pulp.LpMinimize)
    vs = [pulp.LpVariable(v["n"], v["lo"], v["hi"], cat="Continuous" if v["n"] in real else "Integer") for v in P["vars"]]
    if P["has"] == "T":
        prob += pulp.lpSum([e["k"] / 16.0 * vs[e["v"] - 1] for e in P["obj"]]) + P["oc"] / 16.0
    for c in P["cons"]:
        e = pulp.lpSum([t["k"] * P.get("half", 1) * vs[t["v"] - 1] for t in c["t"]]) + c["c"] * P.get("half", 1)
        prob += (e == 0 if c["s"] == 0 else e <= 0 if c["s"] == -1 else e >= 0), c["n"]
    return prob


def whole(prob):
    """the problem in the specification's terms"""
    vs = prob.variables()
    ix = {v.name: i + 1 for i, v in enumerate(vs)}
    P = dict(vars=[dict(n=v.name, lo=integer(v.lowBound), hi=integer(v.upBound)) for v in vs], cons=[], obj=[], oc=0)
    for n, c in prob.constraints.items():
        P["cons"].append(dict(n=n, s=int(c.sense), c=num(c.constant), t=[dict(v=ix[v.name], k=num(k)) for v, k in c.items()]))
    if prob.objective is not None:
        P["obj"] = [dict(v=ix[v.name], k=unit(k)) for v, k in prob.objective.items()]
        P["oc"] = unit(prob.objective.constant)
    return P


class Empty(Exception):
    """an instance with nothing to decide: there is no program to convert"""


def problem(item, rnd, half=False):
    """(PuLP problem, its description)"""
    if "J" in item:
        item = dict(item, dmax=rnd.choice([1000, 2000, 4000]))
        M = Model(item)
        if M.err:
            raise RuntimeError("the instance has no program: " + M.err)
        prob = M.prob
    else:
        if half and rnd.random() < 0.3:
            item = dict(item, half=0.5)
        prob = build(item)
    P = whole(prob)
    if not P["vars"]:
        raise Empty
    if item.get("hint"):
        at = {v["n"]: x for v, x in zip(item["vars"], item["hint"])}
        P["hint"] = [at[v["n"]] for v in P["vars"]]
    return prob, P


def box(P):
    n = 1
    for v in P["vars"]:
        n *= v["hi"] - v["lo"] + 1
    return n


def assignments(P, rnd, n):
    """assignments of the program's variables: all when few, else corners and random ones"""
    if box(P) <= n:
        return [list(x) for x in itertools.product(*[range(v["lo"], v["hi"] + 1) for v in P["vars"]])]
    out = [[v["lo"] for v in P["vars"]], [v["hi"] for v in P["vars"]]]
    while len(out) < n:
        k = rnd.random()
        if k < 0.3:
            out.append([rnd.choice([v["lo"], v["hi"]]) for v in P["vars"]])
        elif k < 0.6:
            y = near(P, rnd)
            out.append(y)
        else:
            out.append([rnd.randint(v["lo"], v["hi"]) for v in P["vars"]])
    return out


def holds(c, x):
    v = sum(t["k"] * x[t["v"] - 1] for t in c["t"]) + c["c"]
    return v == 0 if c["s"] == 0 else v <= 0 if c["s"] == -1 else v >= 0


def near(P, rnd, steps=60):
    """an assignment with few violated constraints (local search; only a source of interesting inputs)"""
    if P.get("hint"):
        x = list(P["hint"])
        i = rnd.randrange(len(x))
        x[i] = max(P["vars"][i]["lo"], min(P["vars"][i]["hi"], x[i] + rnd.choice([-2, -1, 0, 1, 2])))
        return x
    x = [rnd.randint(v["lo"], v["hi"]) for v in P["vars"]]
    bad = sum(not holds(c, x) for c in P["cons"])
    for _ in range(steps):
        if not bad or not x:
            break
        i = rnd.randrange(len(x))
        y = list(x)
        y[i] = rnd.randint(P["vars"][i]["lo"], P["vars"][i]["hi"])
        b = sum(not holds(c, y) for c in P["cons"])
        if b <= bad:
            x, bad = y, b
    return x


def penalties(rnd):
    vals = [1, 1.25, 1.5, 1.75, 2, 2.5, 0.5]
    rnd.shuffle(vals)
    pd = dict(zip(CLASSES, vals))
    pd["occupation"] = 7
    pd["objective"] = rnd.choice([1, 2, 3])
    items = list(pd.items())
    rnd.shuffle(items)
    return dict(items)


def class_of(name):
    return next((c for c in CLASSES if name.startswith(c + "_")), "")


class Bits:
    """the quadratic model of a problem and how its bits decode, seen from outside"""

    def __init__(self, prob, P, pdict):
        import dimod
        import railway_solvers.railway_solvers as rs
        self.P, self.dimod = P, dimod
        (self.bqm, self.qubo, self.interpret), = [rs.convert_to_bqm(prob, pdict)]
        self.labels = list(self.bqm.variables)
        self.names = [v["n"] for v in P["vars"]]
        ix = {b: i + 1 for i, b in enumerate(self.labels)}
        self.base = self.decode([[]])[0]
        ones = self.decode([[i + 1] for i in range(len(self.labels))]) if self.labels else []
        self.eff = [dict(b=i + 1, v=v + 1, k=y[v] - self.base[v]) for i, y in enumerate(ones)
                    for v in range(len(self.names)) if y[v] != self.base[v]]
        self.Q = dict(h=[unit(self.bqm.linear[b]) for b in self.labels],
                      J=[dict(a=ix[a], b=ix[b], k=unit(k)) for (a, b), k in self.bqm.quadratic.items()], off=unit(self.bqm.offset),
                      base=self.base, eff=self.eff)
        q, off = self.qubo
        self.Q2 = dict(h=[unit(q.get((b, b), 0)) for b in self.labels],
                       J=[dict(a=ix[a], b=ix[b], k=unit(k)) for (a, b), k in q.items() if a != b], off=unit(off))
        eb = {e["b"] for e in self.eff}
        self.prog = [i + 1 for i in range(len(self.labels)) if i + 1 in eb]
        self.aux = [i + 1 for i in range(len(self.labels)) if i + 1 not in eb]

    def row(self, on):
        on = set(on)
        return {b: int(i + 1 in on) for i, b in enumerate(self.labels)}

    def values(self, s):
        return [integer(s[n]) if n in s else NOTNUM for n in self.names]

    def sampleset(self, rows, energies):
        return self.dimod.SampleSet.from_samples([self.row(r) for r in rows], "BINARY", energies)

    def decode(self, rows):
        """values of the program's variables, one row at a time"""
        out = []
        for r in rows:
            ss = self.interpret(self.sampleset([r], [0.0]))
            out.append(self.values(dict(list(ss.samples())[0])))
        return out

    def encode(self, x, rnd):
        """bits of the program's variables for an assignment (None: not representable)"""
        on = []
        for v in range(len(x)):
            es = [e for e in self.eff if e["v"] == v + 1]
            rnd.shuffle(es)
            for pat in itertools.product((0, 1), repeat=len(es)):
                if self.base[v] + sum(e["k"] for e, p in zip(es, pat) if p) == x[v]:
                    on += [e["b"] for e, p in zip(es, pat) if p]
                    break
            else:
                return None
        return on

    def random_on(self, rnd, p=0.5):
        return [i + 1 for i in range(len(self.labels)) if rnd.random() < p]


# ---------------------------------------------------------------- C21

def C21(item, rnd):
    import railway_solvers.railway_solvers as rs
    prob, P = problem(item, rnd, half=True)
    r = dict(kind="cqm", P=P, err="", cqm=dict(vars=[], cons=[]), asg=[])
    cqm, r["err"] = call(rs.convert_to_cqm, prob)
    out = [r]
    if not r["err"]:
        _, r["err"] = call(_cqm, r, cqm, P, rnd)
    return out + rejects(item, P, rnd, rs.convert_to_cqm)


def rejects(item, P, rnd, convert):
    """programs outside the scope of the conversion: a continuous variable, an objective to be maximised"""
    out = []
    if "vars" in item and rnd.random() < 0.3:
        used = sorted({item["vars"][t["v"] - 1]["n"] for c in item["cons"] for t in c["t"]})
        if used:
            real = set(used) if rnd.random() < 0.3 else {rnd.choice(used)}
            _, err = call(convert, build(item, real=real))
            out.append(dict(kind="reject", why="continuous", err=err, P=P))
        if item["obj"]:
            _, err = call(convert, build(item, up=True))
            out.append(dict(kind="reject", why="maximised", err=err, P=P))
    return out


def _cqm(r, cqm, P, rnd):
    vs = list(cqm.variables)
    r["cqm"]["vars"] = [dict(n=str(v), type=cqm.vartype(v).name, lo=integer(cqm.lower_bound(v)), hi=integer(cqm.upper_bound(v))) for v in vs]
    sense = {"<=": -1, "==": 0, ">=": 1}
    r["cqm"]["cons"] = [dict(n=str(n), s=sense[c.sense.value]) for n, c in cqm.constraints.items()]
    lo = {v["n"]: v["lo"] for v in P["vars"]}
    for x in assignments(P, rnd, 120):
        y = {v["n"]: x[i] - lo[v["n"]] + (cqm.lower_bound(v["n"]) if v["n"] in vs else 0) for i, v in enumerate(P["vars"])}
        r["asg"].append(dict(x=x, val=[num(c.lhs.energy(y) - c.rhs) for c in cqm.constraints.values()], obj=unit(cqm.objective.energy(y))))


# ---------------------------------------------------------------- C22, C23

def converted(item, rnd, n, ndec):
    prob, P = problem(item, rnd)
    pd = penalties(rnd)
    r = dict(P=P, err="", w=pd["objective"], pen=[unit(pd[class_of(c["n"])]) for c in P["cons"]], Q=dict(h=[], J=[], off=0, base=[], eff=[]),
             Q2=dict(h=[], J=[], off=0), asg=[], dec=[])
    b, r["err"] = call(Bits, prob, P, pd)
    if r["err"]:
        return r, None
    r["Q"], r["Q2"] = b.Q, b.Q2
    if len(b.prog) <= n:
        r["asg"] = [[k for k, on in zip(b.prog, pat) if on] for pat in itertools.product((0, 1), repeat=len(b.prog))]
    else:
        for x in assignments(P, rnd, 2 * n):
            on = b.encode(x, rnd)
            r["asg"].append(on if on is not None else [])
    if len(b.prog) > n or len(r["asg"]) > 2 ** n:
        rnd.shuffle(r["asg"])
        r["asg"] = r["asg"][:2 * n]
    for _ in range(ndec):
        on = b.random_on(rnd, rnd.choice([0.3, 0.5, 0.7]))
        r["dec"].append(dict(on=on, x=b.decode([on])[0]))
    return r, b


def C22(item, rnd):
    import railway_solvers.railway_solvers as rs
    r = converted(item, rnd, 3 if any(abs(t["k"]) > 20 for c in item.get("cons", []) for t in c["t"]) else 7, 8)[0]
    return [dict(r, kind="qubo")] + rejects(item, r["P"], rnd, lambda prob: rs.convert_to_bqm(prob, penalties(rnd)))


def C23(item, rnd):
    r, b = converted(item, rnd, 3, 4)
    r["sets"] = []
    if b is None:
        return [r]
    for _ in range(4):
        n = rnd.choice([1, 2, 3, 5, 9])
        rows = [b.random_on(rnd) for _ in range(n)]
        for i in range(n):
            if rnd.random() < 0.3:
                rows[i] = list(rnd.choice(rows))
        style = rnd.choice(["true", "any", "ties"])
        es = [b.bqm.energy(b.row(x)) for x in rows] if style == "true" else \
            [rnd.choice([0.0, 1.0, -2.5]) if style == "ties" else float(rnd.randrange(-50, 50)) for _ in rows]
        for p in range(2):
            o = list(range(n))
            if p:
                rnd.shuffle(o)
            ss = b.sampleset([rows[i] for i in o], [es[i] for i in o])
            v, err = call(lambda: [(dict(d.sample), d.energy) for d in b.interpret(ss).data(sorted_by=None)])
            r["sets"].append(dict(err=err, rows=[dict(on=rows[i], e=unit(es[i])) for i in o],
                                  out=[] if err else [dict(names=[str(k) for k in s], x=b.values(s), e=unit(e)) for s, e in v]))
    return [r]


# ---------------------------------------------------------------- C24, C25

def edge(P, rnd, tries=40):
    """an assignment that misses a constraint by little (only a source of interesting inputs)"""
    c = rnd.choice(P["cons"] or [None])
    xs = [[rnd.randint(v["lo"], v["hi"]) for v in P["vars"]] for _ in range(tries)]
    if c is None:
        return xs[0]
    miss = lambda x: abs(sum(t["k"] * x[t["v"] - 1] for t in c["t"]) + c["c"])
    return min(xs, key=lambda x: (holds(c, x), miss(x)))


def samples(P, rnd, n):
    out = []
    for _ in range(n):
        k = rnd.random()
        if k < 0.35:
            out.append(near(P, rnd))
        elif k < 0.5:
            out.append(edge(P, rnd))
        elif k < 0.9 or not out:
            out.append([rnd.randint(v["lo"], v["hi"]) for v in P["vars"]])
        else:
            out.append(list(rnd.choice(out)))
    return out


def record_of(P, d):
    """an analysis record in the specification's terms"""
    names = [v["n"] for v in P["vars"]]
    s = dict(d["sample"])
    flags, cnt = d["feas_constraints"]
    return dict(x=[integer(s[n]) if n in s else NOTNUM for n in names], e=unit(d["energy"]), obj=unit(d["objective"]), feas=boolean(d["feasible"]),
                flags=[dict(n=str(k), ok=boolean(v)) for k, v in flags.items()], cnt=integer(cnt))


def sampleset(P, xs, es, rnd):
    import dimod
    names = [v["n"] for v in P["vars"]]
    f = rnd.choice([int, float])
    return dimod.SampleSet.from_samples([dict(zip(names, map(f, x))) for x in xs], rnd.choice(["BINARY", "INTEGER"]), es)


def C24(item, rnd):
    import railway_solvers.railway_solvers as rs
    prob, P = problem(item, rnd, half=True)
    if prob.objective is None:
        prob += 0 * prob.variables()[0]
    out = []
    for n in (1, rnd.choice([2, 3, 6, 12])):
        xs = samples(P, rnd, n)
        es = [float(rnd.choice([0, 1, 2, -3, rnd.randrange(-40, 40)])) for _ in xs]
        r = dict(P=P, err="", rows=[dict(x=x, e=unit(e)) for x, e in zip(xs, es)], out=[])
        v, r["err"] = call(lambda: [record_of(P, d) for d in rs.get_results(sampleset(P, xs, es, rnd), prob)])
        r["out"] = v or []
        out.append(r)
    return out


def C25(item, rnd):
    import railway_solvers.railway_solvers as rs
    out = []
    if "pick" in item:
        # analysed samples made up: every pattern of feasibility, objective and energy
        n = rnd.choice([1, 2, 3, 4, 7])
        vals = rnd.choice([[0.0, 1.0], [0.0, 0.5, -1.5, 3.0, 8.0], [0.0]])
        p = rnd.choice([0.0, 0.2, 0.5, 1.0])
        ds = [dict(energy=rnd.choice([0.0, 1.0, -2.0, 5.5, 9.0]), objective=rnd.choice(vals), feasible=rnd.random() < p,
                   sample={"x": k}, feas_constraints=({"c": True}, 1)) for k in range(n)]
        ds.sort(key=lambda d: d["objective"])
    else:
        prob, P = problem(item, rnd)
        if prob.objective is None:
            prob += 0 * prob.variables()[0]
        xs = samples(P, rnd, rnd.choice([1, 2, 4, 8]))
        es = [float(rnd.choice([0, 1, rnd.randrange(-40, 40)])) for _ in xs]
        ds, err = call(rs.get_results, sampleset(P, xs, es, rnd), prob)
        if err:
            return [dict(err=err, R=[], got={})]
    key = lambda d: dict(obj=unit(d["objective"]), e=unit(d["energy"]), feas=boolean(d["feasible"]))
    R = [key(d) for d in ds]
    v, err = call(lambda: key(rs.get_best_feasible_sample(ds)))
    return [dict(err=err, R=R, got=v or {})]


# ---------------------------------------------------------------- C26

def settings(kw):
    out = []
    for k, v in kw.items():
        if k == "beta_range" and v is not None:
            out += [dict(n="beta_lo", v=num(v[0])), dict(n="beta_hi", v=num(v[1]))]
        elif isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool):
            out.append(dict(n=k, v=num(v)))
    return out


class Sampler:
    """adversarial samplers: they return the given rows, whatever they are asked"""

    def __init__(self, rows, token):
        import dwave.system as ds
        import neal
        self.ds, self.neal = ds, neal
        self.problems = []

        def give(p):
            self.problems.append(p)
            return [dict(r) for r in rows]
        neal.SHIM_SAMPLE_HOOK = ds.SHIM_BQM_HOOK = ds.SHIM_CQM_HOOK = give
        neal.SHIM_TOKEN = ds.SHIM_TOKEN = token
        del neal.CALLS[:]
        del ds.CALLS[:]

    def calls(self):
        return list(self.neal.CALLS) + list(self.ds.CALLS)

    def close(self):
        self.neal.SHIM_SAMPLE_HOOK = self.ds.SHIM_BQM_HOOK = self.ds.SHIM_CQM_HOOK = None
        self.neal.SHIM_TOKEN = self.ds.SHIM_TOKEN = None


def energies(rows, problem):
    e = problem.energy if hasattr(problem, "energy") else problem.objective.energy
    return [unit(e(r)) for r in rows]


def C26(item, rnd):
    import helpers
    import railway_solvers.railway_solvers as rs
    prob, P = problem(item, rnd)
    if prob.objective is None:
        prob += 0 * prob.variables()[0]
    pd = penalties(rnd)
    b, err = call(Bits, prob, P, pd)
    if err:
        return [dict(kind="run", method="bqm", err=err)]
    out = []
    for method in ("sim", "real", "bqm", "cqm"):
        xs = samples(P, rnd, rnd.choice([1, 2, 5, 9]))
        if rnd.random() < 0.3:
            xs = [x for x in xs if not all(holds(c, x) for c in P["cons"])] or xs
        if method == "cqm":
            rows, recs = [dict(zip(b.names, x)) for x in xs], [dict(x=x) for x in xs]
        else:
            ons = []
            for x in xs:
                on = b.encode(x, rnd) or []
                ons.append(on + [a for a in b.aux if rnd.random() < 0.4])
            rows, recs = [b.row(on) for on in ons], [dict(on=on) for on in ons]
        min_t = rnd.choice([5, 6, 10, 33, 120])
        least = floor(method, rnd)
        token = rnd.randrange(1, 10 ** 6)
        S = Sampler(rows, token)
        try:
            ans, err = call(helpers.solve_on_quantum, prob, method, pd, min_t)
            calls = S.calls()
            r = dict(kind="run", method=method, err=err, P=P, Q=b.Q if method != "cqm" else {}, rows=recs, ans={}, seen=[],
                     calls=[dict(who=w, set=settings(kw)) for w, kw, _ in calls], info="F", prop="T",
                     want=[dict(n="time_limit", v=num(max(min_t, least)))] if method in ("bqm", "cqm") else [])
            if not err:
                a, r["err"] = call(record_of, P, ans)
                r["ans"] = a or {}
                r["seen"] = energies(rows, S.problems[0]) if S.problems else []
                r["info"] = "T" if isinstance(ans.get("info"), dict) and ans["info"].get("token") == token else "F"
                pr = ans.get("properties")
                if method == "sim":
                    r["want"] = settings(pr) if isinstance(pr, dict) else []
                    r["prop"] = "T" if {x["n"] for x in r["want"]} >= {"beta_lo", "beta_hi", "num_reads", "num_sweeps"} else "F"
                elif method != "real":
                    r["prop"] = "T" if isinstance(pr, dict) and pr.get("minimum_time_limit_s") == min_t else "F"
            out.append(r)
            if rnd.random() < 0.5:
                out.append(direct(method, b, prob, rows, rnd, token))
        finally:
            S.close()
    return out


def floor(method, rnd):
    """the least time limit the hybrid sampler accepts for a problem"""
    import dwave.system as ds
    ds.SHIM_FLOOR = rnd.choice([3.0, 3.0, 3.0, 45.0])
    return ds.SHIM_FLOOR if method == "bqm" else 0


def direct(method, b, prob, rows, rnd, token):
    """a sampler called with given settings"""
    import railway_solvers.railway_solvers as rs
    S = Sampler(rows, token)
    model = b.bqm
    if method == "sim":
        kw = dict(beta_range=(rnd.choice([0.001, 0.01, 5]), rnd.choice([10, 100])), num_sweeps=rnd.choice([10, 400]), num_reads=rnd.choice([2, 30]))
        f = rs.sim_anneal
    elif method == "real":
        kw = dict(num_reads=rnd.choice([10, 1000]), annealing_time=rnd.choice([20, 250]), chain_strength=rnd.choice([3, 4.5]))
        f = rs.real_anneal
    else:
        kw = dict(minimum_time_limit=rnd.choice([5, 7, 20, 90, 300]))
        f = rs.hybrid_anneal if method == "bqm" else rs.constrained_solver
        if method == "cqm":
            model = rs.convert_to_cqm(prob)
    least = floor(method, rnd)
    pos = rnd.random() < 0.3
    v, err = call(f, model, *kw.values()) if pos else call(f, model, **kw)
    want = settings(kw)
    r = dict(kind="settings", method=method, err=err, want=[], calls=[], same="F", prop="T")
    if method in ("bqm", "cqm"):
        want = [dict(n="time_limit", v=num(max(kw["minimum_time_limit"], least)))]
        if not err and not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict) and v[1].get("minimum_time_limit_s") == kw["minimum_time_limit"]):
            r["prop"] = "F"
        v = v[0] if isinstance(v, tuple) else v
    r["want"] = want
    for w, k, p in S.calls():
        r["calls"].append(dict(who=w, set=settings(k), same="T" if energies(rows, p) == energies(rows, model) else "F"))
    if not err:
        got, e2 = call(lambda: sorted((sorted(dict(d.sample).items()), unit(d.energy)) for d in v.data()))
        exp = sorted((sorted(x.items()), e) for x, e in zip(rows, energies(rows, model)))
        r["same"] = "T" if not e2 and got == exp else "F"
    return r


def main():
    prop, src, out, seed = sys.argv[1:5]
    rnd = random.Random(int(seed))
    recs = []
    with open(src) as f:
        for line in f:
            try:
                recs += globals()[prop](json.loads(line), rnd)
            except Empty:
                pass
    dump(out, recs)


if __name__ == "__main__":
    main()
