"""What each check generates, records and judges."""
import json
import random

DATA_ASSUMPTIONS = [
    "no train visits a block or a station twice; every train serves at least two stations",
    "all times lie on one day; block, station and train names contain no underscore or semicolon",
    "pandas, numpy and the TLC JSON reader are trusted",
]


def shipped_items(c, per_set, size, whole=()):
    """requests for worlds cut out of the shipped data sets (resolved by the recorder)"""
    rnd = random.Random(c.seed * 7919)
    out = [dict(ship=name, pick=-1, size=0, whole=True) for name in whole]
    for name in ("base", "Gt", "1t", "1tGt", "g1", "g2", "g3"):
        for _ in range(per_set):
            out.append(dict(ship=name, pick=rnd.randrange(10 ** 6), size=size))
    return out


def data_check(c, n, per_set=1, size=6, whole=None, plain=None, big=None, **consts):
    items = c.worlds(n, **consts)
    items += c.worlds(c.quick(6, 60) if big is None else big, seed_off=700, **dict(consts, MaxStations=10, MaxTrains=14))
    if whole is None:
        whole = c.quick((ALL[c.seed % 4], ALL[4 + c.seed % 3]), ALL)
    if plain:
        items += c.worlds(plain, seed_off=500, Theme="plain", MaxStations=4, MaxTrains=6, RepeatPct=70)
    items += shipped_items(c, per_set, size, whole)
    recs = c.record("rec_data.py", c.prop, items)
    c.judge("TraceData", recs)
    c.extra["worlds"] = len(items)
    c.assumptions = DATA_ASSUMPTIONS


ALL = ("base", "Gt", "1t", "1tGt", "g1", "g2", "g3")


def C01(c):
    data_check(c, c.quick(120, 600), per_set=c.quick(1, 6), whole=ALL)


def C02(c):
    data_check(c, c.quick(120, 600), per_set=c.quick(1, 6))


def C03(c):
    data_check(c, c.quick(160, 800), per_set=c.quick(1, 8))


def C04(c):
    data_check(c, c.quick(200, 900), per_set=c.quick(1, 8), RepeatPct=65)


def C05(c):
    data_check(c, c.quick(140, 600), per_set=c.quick(1, 8))


def C06(c):
    data_check(c, c.quick(200, 900), per_set=c.quick(1, 8), size=9, MaxTrains=7, RepeatPct=60, plain=c.quick(80, 300))


def C07(c):
    data_check(c, c.quick(240, 900), per_set=c.quick(1, 8), size=9, MaxTrains=6, RepeatPct=70, plain=c.quick(80, 300))


def C08(c):
    data_check(c, c.quick(240, 900), per_set=c.quick(2, 8), size=9, MaxTrains=7, plain=c.quick(80, 300))


def C09(c):
    data_check(c, c.quick(220, 900), per_set=c.quick(1, 8), size=7, plain=c.quick(80, 300))


def C10(c):
    data_check(c, c.quick(240, 900), per_set=c.quick(2, 8), size=12, PairPct=60, StrayPct=12, plain=c.quick(80, 300))


def C11(c):
    data_check(c, c.quick(200, 900), per_set=c.quick(1, 8))


def C12(c):
    data_check(c, c.quick(140, 700), per_set=c.quick(1, 8), PairPct=40, whole=())


def C13(c):
    data_check(c, c.quick(200, 900), per_set=c.quick(1, 8), size=7, RepeatPct=75, plain=c.quick(80, 300), whole=(), big=c.quick(3, 20))


def C14(c):
    data_check(c, c.quick(240, 900), per_set=c.quick(2, 8), size=9)


def C15(c):
    inv = "INVARIANT Additive\nINVARIANT SameKeys"
    h = c.tlc("Disturb", dict(Nos=[1, 11, 21], Absent=2, Delays=[0, 5000], MaxLen=2), more=inv)["HIST"]
    h += c.tlc("Disturb", dict(Nos=[4, 14, 41, 419], Absent=9, Delays=[3500], MaxLen=c.quick(2, 3)), more=inv)["HIST"]
    h += c.tlc("Disturb", dict(Nos=[1, 11, 101, 6401, 40, 406], Absent=640, Delays=[3000, 1500, 14000], MaxLen=6), more=inv,
               args=["-simulate", "num=%d" % c.quick(120, 600), "-depth", "7", "-seed", str(c.seed)], workers=1)["HIST"]
    h += c.worlds(c.quick(80, 300)) + shipped_items(c, c.quick(1, 4), 20)
    recs = c.record("rec_data.py", c.prop, h)
    c.judge("TraceDisturb", recs)
    c.assumptions = DATA_ASSUMPTIONS


def C16(c):
    data_check(c, c.quick(240, 900), per_set=c.quick(2, 8), size=12, PairPct=50)


def model_check(c, items, **consts):
    recs = c.record("rec_solver.py", c.prop, items)
    c.judge("TraceLp", recs)
    c.extra["instances"] = len(items)


def C17(c):
    model_check(c, c.instances(c.quick(450, 1500), MaxStations=4, MaxTrains=5, Deci="T"))


def both_ways(c, off):
    """small instances (every delay vector) and larger ones (probes and repaired plans)"""
    items = c.instances(c.quick(360, 3000), seed_off=off)
    items += c.instances(c.quick(60, 600), seed_off=off + 100, MaxStations=4, MaxTrains=5, SwitchPct=20)
    items += c.instances(c.quick(150, 1500), seed_off=off + 200, MaxStations=4, MaxTrains=4, SwitchPct=25, Room="T")
    items += c.instances(c.quick(45, 600), seed_off=off + 300, MaxStations=5, MaxTrains=7, SwitchPct=10, PairPct=35, Room="T")
    items += c.instances(c.quick(120, 1200), seed_off=off + 400, MaxStations=3, MaxTrains=6, SwitchPct=5, PairPct=65, Room="T")
    model_check(c, items)


def operational(c, n):
    """the rules the model is judged by agree with the step-by-step model of the railway (every delay vector)"""
    items = [x for x in c.instances(n, seed_off=900, Cap=300) if x["small"] == "T"]
    path = c.path("operational.ndjson")
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x) + "\n")
    before = c.states
    c.tlc("Dispatch", {}, env=dict(TRACE=path), more="INVARIANT OnlySafeComplete\nINVARIANT SafeNeverStuck\nVIEW View")
    c.extra["operational_states"] = c.states - before


def C18(c):
    operational(c, c.quick(80, 800))
    both_ways(c, 0)


def C19(c):
    both_ways(c, 7)


def C20(c):
    model_check(c, c.instances(c.quick(360, 1200), seed_off=3, MaxStations=4, MaxTrains=5, Deci="T"))


def C27(c):
    model_check(c, c.instances(c.quick(450, 1500), seed_off=4, MaxStations=5, MaxTrains=5))


def C28(c):
    model_check(c, c.instances(c.quick(360, 1200), seed_off=5, MaxStations=4, MaxTrains=6) + [dict(qubo=k + 1) for k in range(c.quick(180, 400))])


def C29(c):
    model_check(c, c.instances(c.quick(180, 600), seed_off=6, MaxStations=4, MaxTrains=5, SwitchPct=40))


def conv_check(c, programs, instances, ranges="any", extra=(), wide=0, fixed=0, many=0, **consts):
    """generated programs and the programs of generated dispatching instances"""
    items = c.programs(programs, Ranges=ranges, **consts) if programs else []
    items += c.programs(wide, seed_off=300, Ranges=ranges, WidePct=50, MaxVars=3, MaxCons=2, Aim=60) if wide else []
    items += c.programs(fixed, seed_off=400, Ranges=ranges, FixPct=40) if fixed else []
    items += c.programs(many, seed_off=500, Ranges=ranges, Many="T", MaxVars=5, MaxCons=60) if many else []
    items += c.instances(instances, seed_off=21, MaxStations=3, MaxTrains=3, TightPct=10) if instances else []
    recs = c.record("rec_quantum.py", c.prop, items + list(extra))
    c.judge("TraceConv", recs)
    c.extra["programs"] = len(items)


def C21(c):
    conv_check(c, c.quick(750, 2500), c.quick(60, 200), wide=c.quick(60, 300), fixed=c.quick(60, 300), many=c.quick(20, 100))


def C22(c):
    conv_check(c, c.quick(750, 2500), c.quick(60, 200), wide=c.quick(60, 300))


def C23(c):
    conv_check(c, c.quick(450, 1500), c.quick(36, 120))


def C24(c):
    conv_check(c, c.quick(750, 2500), c.quick(60, 200), wide=c.quick(60, 300), fixed=c.quick(30, 200), many=c.quick(60, 300))


def C25(c):
    conv_check(c, c.quick(450, 1500), c.quick(45, 150), extra=[dict(pick=k) for k in range(c.quick(900, 3000))])


def C26(c):
    conv_check(c, c.quick(180, 600), c.quick(36, 120), ranges="zero", MaxCons=3)


def C30(c):
    items = c.worlds(c.quick(70, 900), Theme="plain", MaxStations=3, MaxTrains=4, DirectPct=0, MinTrack=600, PairPct=30)
    items += c.worlds(c.quick(35, 500), seed_off=1, MaxStations=5, MaxTrains=5, MinTrack=600)
    items += shipped_items(c, c.quick(2, 20), 5)
    model_check(c, items)


def C31(c):
    n = c.quick(18, 180)
    consts = dict(Scenarios=[1, 2], MaxLen=c.quick(90, 120))
    h = c.tlc("Session", consts, more="INVARIANT NeedsMet", workers=1,
              args=["-simulate", "num=%d" % n, "-depth", "130", "-seed", str(c.seed)])["SESS"]
    w = c.worlds(2 * n - 4, MaxStations=4, MaxTrains=3, PairPct=30, MinTrack=600) + [dict(ship=x, pick=c.seed * 31 + 7, size=3) for x in ("base", "1tGt", "g1", "g2")]
    recs = c.record("rec_session.py", c.prop, [dict(hist=h[i], worlds=[w[i], w[-1 - i]], fresh=c.quick(8, 12), twin=i % 2) for i in range(n)])
    c.judge("TraceSession", recs, consts)
    c.extra["calls"] = sum(len(r["steps"]) for r in recs)
    c.extra["fresh_answers"] = sum(len(r["fresh"]) for r in recs)


def C32(c):
    consts = dict(PerReal=c.quick(4, 24), PerGlc=c.quick(2, 8), PerWisla=c.quick(8, 60))
    f = c.tlc("ScriptGen", consts, workers=1, args=["-seed", str(c.seed)])["CFG"]
    f.sort(key=lambda x: (x["script"] != "glc", x["k"]))
    recs = c.record("rec_script.py", c.prop, f)
    c.judge("TraceScript", recs)
    c.extra["runs"] = len(recs)
    c.extra["models"] = sum(len(r["built"]) for r in recs)


def C33(c):
    f = c.tlc("DiagramGen", dict(Files=c.quick(400, 6000)), workers=1, args=["-seed", str(c.seed)])["FILE"]
    ids = dict(glcty="137139GLYTy", glckz="137138GLYKZ", kzty="138139KZTY")
    more = [dict(shipped=n % k, seg=s, id=ids[s], real=r, fixed=[], eps="", bw="F") for k in range(10) for s in sorted(ids)
            for n, rs in (("cqm5_case%d_Integer.pkl", range(1, 6)), ("PULP_CBC_CMD_case%d_Integer.pkl", [0])) for r in rs]
    if c.tier == "quick":
        more = random.Random(c.seed).sample(more, 24)
    recs = c.record("rec_diagram.py", c.prop, f + more)
    c.judge("TraceDiagram", recs)
    c.extra["diagrams"] = len(recs)
    c.extra["lines drawn"] = sum(len(r["paths"]) for r in recs)
    c.extra["rows listed"] = sum(len(x["rows"]) for r in recs for x in r["list"])


def C34(c):
    f = c.tlc("StatsGen", dict(PerKind=c.quick(12, 120)), workers=1, args=["-seed", str(c.seed)])["SET"]
    recs = c.record("rec_stats.py", c.prop, f)
    c.judge("TraceStats", recs)
    c.extra["figures"] = sum(len(r["figs"]) for r in recs)
    c.extra["series"] = sum(len(a) for r in recs for g in r["figs"] for a in g["axes"])


def C35(c):
    recs = c.record("rec_shipped.py", c.prop, ["base", "Gt", "1t", "1tGt", "g1", "g2", "g3"])
    c.judge("Shipped", recs)
    c.extra["trains"] = sum(len(r["w"]["trains"]) for r in recs)
    c.extra["rows"] = sum(len(t["rows"]) for r in recs for t in r["w"]["trains"])


NOTE = "worlds, instances, programs and histories are bounded and drawn by TLC from the seed; every recorded call is decided by TLC against the specification"
DATA = "TLA+ specification (%s) with TLC trace validation: worlds generated by TLC (World.tla) and cut-outs of the shipped data run through the real code, each recorded answer judged by TraceData.tla"
MODEL = "TLA+ specification (Dispatching.tla, Program.tla) with TLC trace validation: dispatching instances%s generated by TLC (InstanceGen.tla) run through the real code, %s"
QUAD = "TLA+ specification (Program.tla, Quadratic.tla) with TLC trace validation: integer programs generated by TLC (ProgramGen.tla) and dispatching models run through the real %s, judged by TraceConv.tla"
TECHNIQUE = {i: (DATA % m, NOTE) for m, ids in (("Timetable.tla", "C01 C02"), ("Network.tla", "C03"), ("Routes.tla", "C04 C05"), ("TrainSets.tla", "C06 C07 C08 C09 C10"),
                                                ("Taus.tla", "C11 C12 C13"), ("Scheduling.tla", "C14 C16")) for i in ids.split()}
TECHNIQUE["C15"] = ("TLA+ state machine of disturbances (Disturb.tla): histories enumerated and walked by TLC with its invariants, replayed into the real code, every intermediate table judged by TraceDisturb.tla", NOTE)
for i in ("C18", "C19"):
    TECHNIQUE[i] = (MODEL % (" and plans (Repair)", "the built model and the rules compared on every delay vector of small instances and on tight plans of larger ones by TraceLp.tla"
                             + ("; the rules themselves checked by TLC against the operational model Dispatch.tla" if i == "C18" else "")), NOTE)
for i in ("C17", "C20", "C27", "C28", "C29"):
    TECHNIQUE[i] = (MODEL % ("", "each recorded answer judged by TraceLp.tla"), NOTE)
for i, what in (("C21", "conversion"), ("C22", "conversion, energies compared on assignments"), ("C23", "conversion, every decoding compared"), ("C24", "analysis of samples"),
                ("C25", "selection of samples"), ("C26", "solver front ends with recorded sampler calls")):
    TECHNIQUE[i] = (QUAD % what, NOTE)
TECHNIQUE["C30"] = ("TLA+ specification (Chain.tla over Scheduling.tla and Dispatching.tla) with TLC trace validation: timetable files of TLC-generated worlds and shipped data go through the whole tool chain; the built model is compared in both directions with the rules derived from block routes", NOTE)
TECHNIQUE["C31"] = ("TLA+ state machine of sessions (Session.tla) walked by TLC; the histories are replayed on real objects of two scenarios, digests of all objects and the answer after each call validated by TraceSession.tla", NOTE)
TECHNIQUE["C32"] = ("TLA+ specification of the scenario scripts (Scripts.tla): configurations drawn by TLC, scripts run with recorded model construction, solver calls and files, judged by TraceScript.tla", NOTE)
TECHNIQUE["C33"] = ("TLA+ specification of train diagrams and path listings (Diagram.tla): solution files and requests drawn by TLC (DiagramGen), the scripts run on them and on shipped solutions, every printed diagram and listing judged by TraceDiagram.tla", NOTE)
TECHNIQUE["C34"] = ("TLA+ specification of statistics and comparison figures (Stats.tla): result files drawn by TLC (StatsGen), the scripts run on them with a recording stand-in for matplotlib, every drawn series and printed figure judged by TraceStats.tla", NOTE)
TECHNIQUE["C35"] = ("TLA+ specification of well-formed data sets (Shipped.tla): every shipped station table, network and timetable read independently and judged by TLC in full", NOTE)
