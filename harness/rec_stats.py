"""Recorder for the statistics and plot scripts (C34).

usage: rec_stats.py C34 SETS.ndjson OUT.ndjson SEED
The result files drawn by spec/StatsGen.tla are written to a directory of their
own, the script is run there, and what it draws (shims/matplotlib) and prints
is recorded.
"""
import pickle
import random
import re
import runpy
import signal
import sys

from common import *  # noqa: F401,F403

SCRIPT = dict(stats="solutions_quantum/data4diagrams/visualise_statistics.py", fast="results_KO_GLC/fast_plot.py", lim="results_KO_GLC/fast_plot_lim.py",
              tmin="solutions_quantum/tmin_plot.py", rev="solutions_quantum/tmin_plot_rev.py")
TMINS = [5, 6, 7, 10, 15, 20, 25, 30, 40, 60]


def h(x):
    """hundred-thousandths"""
    try:
        if isinstance(x, (bool, str)) or x is None or math.isnan(float(x)):
            return NOTNUM
        return max(-2000000000, min(2000000000, int(round(float(x) * 1e5))))
    except Exception:
        return NOTNUM


def save(name, x):
    with open(name, "wb") as g:
        pickle.dump(x, g)


def sampled(e):
    return dict(objective=e["obj"] / 1000.0, feasible=e["ok"] == "T", info=dict(run_time=e["run"] * 10, qpu_access_time=e["qpu"] * 10), energy=0.0, sample={})


def write(f, rnd):
    if f["kind"] == "stats":
        def train(stops):
            out = {}
            for x in stops:
                out[x["s"]] = {} if x["d"] == -100000 else {"secondary delay": x["d"], "departure": 0}
            return out
        side = lambda ts: {t["n"]: train(t["stops"]) for t in ts}
        for k, c in enumerate(f["cases"]):
            save("cqm5_case%d_Integer.pkl" % k, {i: side(ts) for i, ts in enumerate(c["q"], 1)})
            save("PULP_CBC_CMD_case%d_Integer.pkl" % k, side(c["c"]))
    elif f["kind"] in ("fast", "lim"):
        for k, ln in enumerate(f["lines"], 1):
            for t, q in zip((5, 20), ln["q"]):
                save("results%d__cqm_%d_Integer.pkl" % (t, k), dict({i: sampled(e) for i, e in enumerate(q["inst"])}, samples=len(q["inst"]), d_max=q["dmax"], method="cqm", case=k))
            for name, s in (("results_CPLEX_CMD__%d_Integer.pkl", ln["exact"]), ("results_CPLEX_CMD_ilp_t_lim5.0__%d_Integer.pkl", ln["limited"])):
                save(name % k, dict({i: dict(objective=e["obj"] / 1000.0, comp_time_seconds=e["time"] / 1000.0, feasible=e["ok"] == "T", int_vars=e["iv"], order_vars=e["ov"],
                                             constraints=e["con"]) for i, e in enumerate(s)}, samples=len(s), d_max=40, method="CPLEX_CMD", case=k))
    else:
        for case, c in zip((7, 9), f["cases"]):
            for t, runs in zip(TMINS, c["runs"]):
                save("cqm%d_case%d_Integer.pkl" % (t, case), {i: sampled(e) for i, e in enumerate(runs, 1)})


def series(s):
    err = s["yerr"] if isinstance(s["yerr"], (list, tuple)) and len(s["yerr"]) == 2 else ([], [])
    names = [x for x in s["x"] if isinstance(x, str)]
    c = s["colour"]
    return dict(kind=s["kind"], x=[] if names else [h(x) for x in s["x"]], names=names, y=[h(y) for y in s["y"]], colour=[string(x) for x in c] if isinstance(c, (list, tuple)) else [string(c)],
                label=string(s["label"]), lx=[] if names else [int(round(1000 * math.log(x))) if x > 0 else NOTNUM for x in s["x"]], lo=[h(x) for x in err[0]], up=[h(x) for x in err[1]])


WORDS = (("max delay", "max"), ("quantile 75", "q75"), ("mean", "mean"), ("quantile 25", "q25"), ("min", "min"))


def numbers(s):
    return [h(float(x)) for x in re.findall(r"-?\d+(?:\.\d*)?(?:e-?\d+)?", s.replace("float64", "").replace("int64", ""))]


def printed(text):
    out, kind, case = [], "", -1
    for line in text.split("\n"):
        if "hybrid" in line:
            kind = "q"
        elif "clas" in line:
            kind = "c"
        elif line.startswith("case "):
            case = int(line.split()[1])
        else:
            for w, name in WORDS:
                if line.startswith(w + " ["):
                    out.append(dict(kind=kind, case=case, what=name, v=numbers(line[len(w):])))
    return out


def means(text):
    out = []
    for line in text.split("\n"):
        m = re.match(r"mean n\.o\. (int vars|order vars|constraints) (.*)$", line)
        if m:
            if m.group(1) == "int vars":
                out.append([])
            out[-1] += numbers(m.group(2))
    return out


def C34(f, rnd, path):
    import matplotlib.pyplot as plt
    os.makedirs(path)
    os.chdir(path)
    write(f, rnd)
    del plt.SAVED[:]
    plt.close()
    err = ""
    with quiet() as out:
        signal.alarm(CALL_LIMIT)
        try:
            runpy.run_path(os.path.join(REPO, SCRIPT[f["kind"]]), run_name="__main__")
        except (Exception, SystemExit) as e:
            err = type(e).__name__
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc(file=sys.__stderr__)
        finally:
            signal.alarm(0)
    text = out.getvalue()
    os.chdir("/")
    return dict(f=f, err=err, figs=[dict(path=g["path"], heads=sorted({int(x) for a in g["axes"] for x in re.findall(r"\d+", str(a["title"]))}), axes=[[series(s) for s in a["series"]] for a in g["axes"]]) for g in plt.SAVED],
                out=printed(text) if f["kind"] == "stats" else [], means=means(text))


def main():
    prop, src, out, seed = sys.argv[1:5]
    with open(src) as g:
        items = [json.loads(x) for x in g]
    base = os.environ["VERIF_SCRATCH"]
    dump(out, [C34(f, random.Random("%s %d" % (seed, i)), os.path.join(base, "set-%d" % i)) for i, f in enumerate(items)])


if __name__ == "__main__":
    main()
