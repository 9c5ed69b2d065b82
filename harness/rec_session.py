"""Recorder for sessions (C31): replays a history of calls on shared objects.

usage: rec_session.py C31 ITEMS.ndjson OUT.ndjson SEED
An item holds a history (spec/Session.tla) and one world per scenario.
After each call every object is digested; some answers are also produced in a
child process of their own that has made no other call.
"""
import datetime
import os
import random
import sys
import zlib

from common import *  # noqa: F401,F403
import common

DMAX = 20
REF = datetime.datetime(2020, 1, 1, 16, 0)


# ---------------------------------------------------------------- digests

def canon(x, depth=0):
    """content of a value as text; dictionaries and sets without order"""
    if x is None or isinstance(x, (bool, np.bool_, str)):
        return repr(x) if not isinstance(x, np.bool_) else repr(bool(x))
    if isinstance(x, (int, np.integer)):
        return repr(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        return repr(int(f)) if f == f and abs(f) < 1e15 and f == int(f) else repr(round(f, 9))
    if isinstance(x, pd.DataFrame):
        return "frame(%s|%s|%s)" % (canon([str(c) for c in x.columns]), canon([str(i) for i in x.index]), canon(x.values.tolist()))
    if isinstance(x, pd.Series):
        return "series(%s|%s)" % (canon([str(i) for i in x.index]), canon(x.values.tolist()))
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (datetime.datetime, datetime.timedelta)):
        return str(x)
    if depth > 40:
        return "~deep"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(canon(e, depth + 1) for e in x)) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(e, depth + 1) for e in x) + "]"
    n = type(x).__name__
    if n == "LpProblem":
        vs = sorted((v.name, v.lowBound, v.upBound, v.cat, v.varValue) for v in x.variables())
        cs = sorted((str(k), c.sense, c.constant, sorted((v.name, q) for v, q in c.items())) for k, c in x.constraints.items())
        o = None if x.objective is None else (x.objective.constant, sorted((v.name, q) for v, q in x.objective.items()))
        return "prob" + canon([vs, cs, o, x.sense, x.status], depth + 1)
    if n == "LpVariable":
        return "var" + canon([x.name, x.lowBound, x.upBound, x.cat, x.varValue])
    if n == "BinaryQuadraticModel":
        return "bqm" + canon([dict(x.linear), sorted((sorted(map(str, k)), v) for k, v in x.quadratic.items()), x.offset], depth + 1)
    if n == "ConstrainedQuadraticModel":
        cons = {str(k): [c.sense.value, c.rhs, canon_expr(c.lhs)] for k, c in x.constraints.items()}
        return "cqm" + canon([[(str(v), x.vartype(v).name, x.lower_bound(v), x.upper_bound(v)) for v in x.variables], cons, canon_expr(x.objective)], depth + 1)
    if n == "SampleSet":
        return "set" + canon([(sorted((str(k), v) for k, v in d.sample.items()), d.energy) for d in x.data()], depth + 1)
    if hasattr(x, "items"):
        return "{" + ",".join(sorted(canon(k, depth + 1) + ":" + canon(v, depth + 1) for k, v in x.items())) + "}"
    if callable(x):
        return "~function"
    try:
        return "it" + canon(list(x), depth + 1)
    except TypeError:
        return "~" + n + ":" + str(x)


def canon_expr(e):
    return canon([dict(e.linear), sorted((sorted(map(str, k)), v) for k, v in e.quadratic.items()), e.offset])


def digest(x):
    return zlib.crc32(canon(x).encode("utf-8", "replace")) & 0x3fffffff


# ---------------------------------------------------------------- calls

class Missing(Exception):
    pass


class Scenario:
    def __init__(self, w):
        import data_formatting.data_formatting as df
        import helpers
        import railway_solvers.railway_solvers as rs
        self.df, self.h, self.rs = df, helpers, rs
        self.w, self.t1 = w, hm(w)
        B = Built(w)
        self.err = B.err
        self.nos = [t["no"] for t in w["trains"]]
        self.o = dict(td=B.td, st=B.stations, net=B.network, some=sorted(B.stations)[::-2],
                      pen={"minimal_span": 1.25, "single_line": 1.5, "minimal_stay": 1.75, "track_occupation": 1.25, "switch": 1.5,
                           "occupation": 1.25, "circulation": 1.75, "objective": 1})

    def __getattr__(self, n):
        if n in ("td", "st", "net", "taus", "tt", "ts", "late", "prob", "lateprob", "solved", "latesolved", "cqm_", "bqm_", "set_", "res"):
            o = self.__dict__["o"]
            if n.rstrip("_") not in o:
                raise Missing(n)
            return o[n.rstrip("_")]
        raise AttributeError(n)

    def pairs(self):
        return [(a, b) for a in self.nos for b in self.nos if a != b]

    def legs(self):
        P = self.df.get_Paths(self.td)
        return [(j, p[i], p[i + 1]) for j, p in P.items() for i in range(len(p) - 1)]

    def sample(self):
        return dict(next(iter(self.set_.data())).sample)

    def skipped(self):
        if "skip" not in self.o:
            raise Missing("skip")
        return self.o["skip"]

    def run(self, op):
        """(answer, object made or None)"""
        df, h, rs = self.df, self.h, self.rs
        td, st, net = self.o["td"], self.o["st"], self.o["net"]
        f = {
            "J": lambda: df.get_J(td), "Paths": lambda: df.get_Paths(td), "jd": lambda: df.jd(td, st), "josingle": lambda: df.josingle(td, st),
            "jround": lambda: df.get_jround(td, st), "jtrack": lambda: df.jtrack(td, st), "jswitch": lambda: df.jswitch(td, st, net),
            "pass": lambda: df.get_taus_pass(td), "headway": lambda: df.get_taus_headway(td, st, r=0), "prep": lambda: df.get_taus_prep(td, st),
            "stop": lambda: df.get_taus_stop(td, st), "initial": lambda: df.get_initial_conditions(td, self.t1),
            "schedule": lambda: df.get_schedule(td, self.t1), "pair9": lambda: df.get_trains_pair9(td),
            "blocks": lambda: [df.get_blocks_b2win_station4train(td[j][1], s, t) for j, s, t in self.legs()],
            "common": lambda: [df.get_common_blocks_and_direction_b2win_trains(td, j, k, s, t) for j, s, t in self.legs() for k in self.nos if k != j],
            "atstation": lambda: df.get_trains_at_station(td, st), "passing": lambda: [df.is_train_passing_thru_station(td[j][1], s) for j in self.nos for s in st],
            "next": lambda: [df.subsequent_station(td[j][1], s) for j, s, _ in self.legs()],
            "own": lambda: [df.blocks_list_4station(td[j][1], s, st) for j, s, _ in self.legs()],
            "connected": lambda: [call(df.check_path_continuity, list(td[j][1]["path"]), net)[1] for j in self.nos],
            "stations": lambda: [df.train_important_stations(td[j][1]) for j in self.nos],
            "times": lambda: [df.get_arr_dep_vals(df.get_arrdep(df.train_time_table(td, j))) for j in self.nos],
            "weights": lambda: df.make_weights(td, self.skipped()),
            "somejd": lambda: df.jd(td, st, self.o["some"]), "somesingle": lambda: df.josingle(td, st, self.o["some"]),
            "sometrack": lambda: df.jtrack(td, st, self.o["some"]), "someswitch": lambda: df.jswitch(td, st, net, self.o["some"]),
            "somepass": lambda: df.get_taus_pass(td, trains=self.nos[1:]), "leaving": lambda: df.get_trains_at_station(td, st, True),
            "blockset": lambda: [df.check_common_blocks_elements(td, a, b) for a, b in self.pairs()],
            "stationset": lambda: [sorted(df.check_common_station(td, a, b)) for a, b in self.pairs()],
            "taus": lambda: h.make_taus(td, st, 1), "skip": lambda: df.get_skip_stations(td),
            "timetable": lambda: h.make_timetable(td, st, self.skipped(), self.t1, self.taus),
            "trainset": lambda: h.make_train_set(td, st, net, self.skipped()),
            "delay": self.delay,
            "model": lambda: rs.create_linear_problem(self.ts, self.tt, DMAX, "Integer"),
            "latemodel": lambda: rs.create_linear_problem(self.ts, self.late, DMAX, "Integer"),
            "solve": lambda: rs.solve_linear_problem(self.ts, self.tt, DMAX), "latesolve": lambda: rs.solve_linear_problem(self.ts, self.late, DMAX),
            "orders": lambda: rs.order_variables(self.ts), "delays": lambda: rs.delay_varibles(self.ts, DMAX, "Integer"),
            "earliest": lambda: [rs.earliest_dep_time(self.ts["Paths"], self.tt, j, self.ts["Paths"][j][0]) for j in self.ts["J"]],
            "size": lambda: h.count_vars(self.prob), "checksize": lambda: h.check_count_vars(self.solved),
            "report": lambda: h.print_optimisation_results(self.solved, self.tt, self.ts, self.taus, self.skipped(), DMAX, REF),
            "latereport": lambda: h.print_optimisation_results(self.latesolved, self.late, self.ts, self.taus, self.skipped(), DMAX, REF),
            "impact": lambda: [rs.impact_to_objective(self.solved, self.tt, j, self.ts["Paths"][j][0], DMAX) for j in self.ts["J"]],
            "actual": lambda: [rs.delay_and_acctual_time(self.ts, self.tt, self.solved, j, self.ts["Paths"][j][0]) for j in self.ts["J"]],
            "cqm": lambda: rs.convert_to_cqm(self.prob), "bqm": lambda: rs.convert_to_bqm(self.prob, self.o["pen"])[0],
            "fields": lambda: (rs.count_linear_fields(self.bqm_), rs.count_quadratic_couplings(self.bqm_)),
            "sampleset": self.sampleset, "results": lambda: rs.get_results(self.set_, self.prob),
            "best": lambda: rs.get_best_feasible_sample(self.res), "value": lambda: rs.get_objective(self.prob, self.sample()),
            "analyse": lambda: rs.analyze_constraints(self.prob, self.sample()),
            "anneal": lambda: rs.sim_anneal(self.bqm_, beta_range=(0.1, 10), num_sweeps=3, num_reads=2),
            "hybrid": lambda: rs.hybrid_anneal(self.bqm_, 5), "constrained": lambda: rs.constrained_solver(self.cqm_, 5),
            "external": lambda: h.print_optimisation_results(self.prob, self.tt, self.ts, self.taus, self.skipped(), DMAX, REF, self.sample()),
            "quantum-sim": lambda: self.quantum("sim"), "quantum-cqm": lambda: self.quantum("cqm"),
        }[op]
        return f()

    def delay(self):
        return dict(self.tt, initial_conditions=self.df.add_delay(self.tt["initial_conditions"], self.nos[0], 5))

    def sampleset(self):
        import dimod
        rnd = random.Random(5)
        vs = self.prob.variables()
        rows = [{v.name: rnd.randint(int(v.lowBound), int(v.upBound)) for v in vs} for _ in range(3)]
        return dimod.SampleSet.from_samples(rows, "INTEGER", [1.0, 0.0, 2.0])

    def quantum(self, how):
        if "prob" not in self.o:
            raise Missing("prob")
        a = dict(self.h.solve_on_quantum(self.prob, how, self.o["pen"], 5))
        a.pop("comp_time_seconds", None)
        return a


MAKES = {"taus": "taus", "skip": "skip", "timetable": "tt", "trainset": "ts", "delay": "late", "model": "prob", "latemodel": "lateprob",
         "solve": "solved", "latesolve": "latesolved", "cqm": "cqm", "bqm": "bqm", "sampleset": "set", "results": "res"}
BY = {v: k for k, v in MAKES.items()}
NEEDS = {"timetable": ["taus", "skip"], "weights": ["skip"], "trainset": ["skip"], "delay": ["tt"], "model": ["ts", "tt"], "latemodel": ["ts", "late"],
         "solve": ["ts", "tt"], "latesolve": ["ts", "late"], "orders": ["ts"], "delays": ["ts"], "earliest": ["ts", "tt"], "size": ["prob"],
         "checksize": ["solved"], "report": ["solved", "tt", "ts", "taus", "skip"], "latereport": ["latesolved", "late", "ts", "taus", "skip"],
         "impact": ["solved", "tt", "ts"], "actual": ["solved", "tt", "ts"], "cqm": ["prob"], "bqm": ["prob"], "fields": ["bqm"], "sampleset": ["prob"],
         "results": ["set", "prob"], "best": ["res"], "value": ["prob", "set"], "analyse": ["prob", "set"], "anneal": ["bqm"], "hybrid": ["bqm"],
         "constrained": ["cqm"], "external": ["prob", "set", "tt", "ts", "taus", "skip"], "quantum-sim": ["prob"], "quantum-cqm": ["prob"]}


def perform(sc, op):
    v, err = call(sc.run, op)
    ans = zlib.crc32(("error " + err).encode()) & 0x3fffffff if err else digest(v)
    if not err and op in MAKES and MAKES[op] not in sc.o:
        sc.o[MAKES[op]] = v
    return ans


def need(sc, op):
    for o in NEEDS.get(op, []):
        if o not in sc.o:
            need(sc, BY[o])
            perform(sc, BY[o])


def apart(f, *args):
    """what f gives in a process of its own; the recorder itself never touches the code under test"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(wr, "w") as out:
                json.dump(f(*args), out)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r) as f:
        t = f.read()
    if os.waitpid(pid, 0)[1] != 0:
        raise RuntimeError("child failed")
    return json.loads(t)


def fresh(w, sc, ops):
    """answers to these calls, and the calls they need, in this order and without any other scenario"""
    s = Scenario(w)
    out = []
    for op in ops:
        need(s, op)
        out.append(dict(sc=sc, op=op, ans=perform(s, op)))
    return out


def session(worlds, hist):
    scs = [Scenario(w) for w in worlds]
    r = dict(heap0=heap(scs), steps=[])
    for x in hist:
        ans = perform(scs[x["sc"] - 1], x["op"])
        r["steps"].append(dict(sc=x["sc"], op=x["op"], ans=ans, heap=heap(scs)))
    return r


def heap(scs):
    return {"%d:%s" % (k + 1, n): digest(v) for k, s in enumerate(scs) for n, v in s.o.items()}


def varied(w, rnd):
    """the same trains under other circumstances: times, speeds, classes, switches, order"""
    w = json.loads(json.dumps(w))
    for l in w["links"]:
        for k in ("icab", "rab", "icba", "rba"):
            l[k] += rnd.choice([0, 500, 1500]) if l[k] >= 0 else 0
    cells = [(l["cell"], l["sw"]) for l in w["links"]]
    rnd.shuffle(cells)
    for l, (c, sw) in zip(w["links"], cells):
        l["cell"], l["sw"] = c, sw
    types = [t["type"] for t in w["trains"]]
    for t in w["trains"]:
        t["type"] = rnd.choice(types + ["IC - EIC", "KS - Os"])
        late = min([1439] + [rnd.choice([0, 4, 9])] + [1439 - r[k] for r in t["rows"] for k in ("arr", "dep", "app")])
        for r in t["rows"]:
            for k in ("arr", "dep", "app"):
                r[k] += max(late, 0) if r[k] >= 0 else 0
            r["turn"] += 2000 if r["turn"] >= 0 else 0
    if rnd.random() < 0.5:
        rnd.shuffle(w["trains"])
    return w


def C31(item, rnd):
    worlds = [resolve(w) for w in item["worlds"]]
    if item["twin"]:
        worlds[1] = varied(worlds[0], rnd)
    hist = item["hist"]
    asked = sorted({(x["sc"], x["op"]) for x in hist})
    rnd.shuffle(asked)
    fr = []
    for s, o in asked[:item["fresh"]]:
        fr += apart(fresh, worlds[s - 1], s, [o])
    for s in sorted({s for s, _ in asked}):
        fr += apart(fresh, worlds[s - 1], s, [o for k, o in asked if k == s])
    return [dict(apart(session, worlds, hist), fresh=fr)]


def main():
    prop, src, out, seed = sys.argv[1:5]
    rnd = random.Random(int(seed))
    recs = []
    with open(src) as f:
        for line in f:
            recs += globals()[prop](json.loads(line), rnd)
    dump(out, recs)


if __name__ == "__main__":
    main()
