"""Bridge between generated worlds / instances (JSON) and the code in /repo.

Runs under the repository's own interpreter.  Everything recorded here goes to
TLC, so every value is forced into the type the specification expects (integer
milli-minutes, integer train numbers, strings); whatever does not fit becomes a
sentinel that no specification value equals.
"""
import contextlib
import csv
import io
import json
import math
import os
import signal
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [os.path.join(VERIF, "shims"), REPO]

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

NOTNUM = -999999999  # "this is not a number"
COLUMNS = ["", "speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting", "Turnaround_time_minutes"]


def num(x, scale=1000):
    """number -> integer thousandths"""
    try:
        if isinstance(x, (bool, np.bool_, str)) or x is None:
            return NOTNUM
        x = float(x)
        if math.isnan(x):
            return -1000000001
        if math.isinf(x):
            return 2000000001 if x > 0 else -2000000001
        y = x * scale
        r = round(y)
        if abs(y - r) > 1e-4:  # not a multiple of the unit: keep it visible
            return NOTNUM + 1 + int(abs(y)) % 1000
        return max(-1999999999, min(1999999999, int(r)))
    except Exception:
        return NOTNUM


def integer(x):
    try:
        if isinstance(x, (bool, np.bool_)):
            return NOTNUM
        if isinstance(x, (int, np.integer)) and abs(int(x)) < 2000000000:
            return int(x)
        if isinstance(x, float) and x == int(x) and abs(x) < 2000000000:
            return int(x)
    except Exception:
        pass
    return NOTNUM


def string(x):
    if isinstance(x, str):
        return x
    if x is None:
        return "~None"
    if isinstance(x, float) and math.isnan(x):
        return ""
    return "~" + type(x).__name__ + ":" + str(x)


def boolean(x):
    """TRUE/FALSE as strings, so that anything else can be told apart"""
    if isinstance(x, (bool, np.bool_)):
        return "T" if x else "F"
    return "~" + type(x).__name__


def seq(x, f):
    try:
        return [f(e) for e in x]
    except Exception:
        return [f("~notiterable")]


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out


class Hang(Exception):
    """the code under test did not come back"""


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)
CALL_LIMIT = int(os.environ.get("VERIF_CALL_LIMIT", "60"))


def call(f, *a, **kw):
    """(value, "") or (None, error class name).  SystemExit and hanging count as errors."""
    try:
        with quiet():
            signal.alarm(CALL_LIMIT)
            try:
                return f(*a, **kw), ""
            finally:
                signal.alarm(0)
    except (Exception, SystemExit) as e:
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        return None, type(e).__name__


# ---------------------------------------------------------------- world -> input files

def hhmm(t):
    return "" if t < 0 else "%d:%02d" % (t // 60, t % 60)


def deci(m):
    """milli-minutes -> text of a decimal number"""
    return ("%.3f" % (m / 1000.0)).rstrip("0").rstrip(".") if m % 1000 else "%d" % (m // 1000)


def file_rows(w):
    """raw rows of the timetable file (the strings of its eight columns)"""
    rows = []
    pad = [""] * 7
    for t in w["trains"]:
        rows.append(["####"] + pad)
        rows.append([t["type"]] + pad)
        rows.append([str(t["no"])] + pad)
        rows.append([t["name"]] + pad)
        rows.append([t["from"]] + pad)
        for r in t["rows"]:
            rows.append([r["b"], r["sp"], hhmm(r["arr"]), hhmm(r["dep"]), hhmm(r["app"]), r["label"], r["shunt"],
                         "" if r["turn"] < 0 else deci(r["turn"])])
        rows.append([t["to"]] + pad)
    return rows


def csv_text(rows):
    f = io.StringIO()
    wr = csv.writer(f, delimiter=";", lineterminator="\n")
    wr.writerow(COLUMNS)
    for r in rows:
        wr.writerow(r)
    return f.getvalue()


def switch_cell(l):
    c, sw = l["cell"], l["sw"]
    if c == "none" or not sw:
        return float("nan")
    if c == "int":
        return int(sw[0])
    if c == "float":
        return float("%d.%d" % (sw[0], sw[1]))
    return ",".join(str(x) for x in sw)


def network_df(w):
    """the network table as the spreadsheet reader delivers it (object columns)"""
    L = w["links"]
    cols = {
        "previous_block": [l["a"] for l in L],
        "next_block": [l["b"] for l in L],
        "direction": ["x"] * len(L),
        "default_A-B": ["Y"] * len(L),
        "default_B-A": ["N"] * len(L),
        "switches": [switch_cell(l) for l in L],
    }
    for name, key in (("time_inter_city_A-B", "icab"), ("time_regional_train_A-B", "rab"),
                      ("time_inter_city_B-A", "icba"), ("time_regional_train_B-A", "rba")):
        cols[name] = ["X" if l[key] < 0 else deci(l[key]) if (i % 2) else l[key] / 1000.0 for i, l in enumerate(L)]
    return pd.DataFrame({k: pd.Series(v, dtype=object) for k, v in cols.items()})


def stations_dict(w):
    return {s["name"]: list(s["tracks"]) for s in w["stations"]}


def read_csv(rows):
    return pd.read_csv(io.StringIO(csv_text(rows)), sep=";")


def hm(w):
    return "%02d:%02d" % (w["tref"] // 60, w["tref"] % 60)


# ---------------------------------------------------------------- canonical keys

def key2(k):
    """'94766_KO(STM)' -> [94766, 'KO(STM)']"""
    try:
        a, b = k.split("_", 1)
        return [int(a), b]
    except Exception:
        return [NOTNUM, "~" + str(k)]


def key3(k):
    try:
        a, b, c = k.split("_")
        return [int(a), b, c]
    except Exception:
        return [NOTNUM, "~" + str(k), ""]


def key4(k):
    try:
        a, b, c, d = k.split("_")
        return [int(a), int(b), c, d]
    except Exception:
        return [NOTNUM, NOTNUM, "~" + str(k), ""]


def table(d, keyf, valf=num):
    """dict -> sequence of [k, v] records"""
    try:
        return [dict(k=keyf(k), v=valf(v)) for k, v in d.items()]
    except Exception:
        return [dict(k=keyf("~notadict"), v=valf(None))]


def dump(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, ensure_ascii=True) + "\n")


# ---------------------------------------------------------------- shipped data as worlds

DATASETS = {
    "base": ("data/important_stations.npz", "data/trains_schedules.csv", 960),
    "Gt": ("data/important_stations_Gt.npz", "data/trains_schedules_Gt.csv", 960),
    "1t": ("data/important_stations.npz", "data/trains_schedules_1track.csv", 960),
    "1tGt": ("data/important_stations_Gt.npz", "data/trains_schedules_1track_Gt.csv", 960),
    "g1": ("data/KO_GLC/important_stations_KO_GLC.npz", "data/KO_GLC/trains_schedules_KO_GLC.csv", 840),
    "g2": ("data/KO_GLC/important_stations_KO_GLC_R.npz", "data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC.csv", 840),
    "g3": ("data/KO_GLC/important_stations_KO_GLC_R.npz", "data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv", 840),
}
_NET = []


def shipped_network():
    if not _NET:
        _NET.append(pd.read_excel(os.path.join(REPO, "data/network_paths.ods"), engine="odf"))
    return _NET[0]


def shipped_rows(name):
    with open(os.path.join(REPO, DATASETS[name][1]), encoding="utf-8") as f:
        return list(csv.reader(f, delimiter=";"))[1:]


def minutes(t):
    if not t:
        return -1
    h, m = t.split(":")
    return int(h) * 60 + int(m)


def shipped_trains(name):
    """independent reading of the shipped file into the world's train records"""
    trains, cur, state = [], None, 0
    for r in shipped_rows(name):
        c = r[0]
        if c == "####":
            cur, state = dict(rows=[]), 1
            trains.append(cur)
        elif state == 1:
            cur["type"], state = c, 2
        elif state == 2:
            cur["no"], state = int(c), 3
        elif state == 3:
            cur["name"], state = c, 4
        elif state == 4:
            cur["from"], state = c, 5
        elif c.startswith("to") or c.startswith("te"):
            cur["to"], state = c, 6
        elif state == 5:
            cur["rows"].append(dict(b=c, sp=r[1], arr=minutes(r[2]), dep=minutes(r[3]), app=minutes(r[4]), label=r[5],
                                    shunt=r[6], turn=-1 if r[7] == "" else int(round(float(r[7]) * 1000))))
    # a number listed twice (see known_findings.txt): the later train counts
    return [t for i, t in enumerate(trains) if t["no"] not in [u["no"] for u in trains[i + 1:]]]


def shipped_links():
    import re
    df = shipped_network()
    out = []
    for _, r in df.iterrows():
        c = r["switches"]
        sw = [] if (isinstance(c, float) and math.isnan(c)) else [int(x) for x in re.findall(r"\d+", str(c))]
        f = lambda k: -1 if r[k] == "X" else int(round(float(r[k]) * 1000))
        out.append(dict(a=r["previous_block"], b=r["next_block"], sw=sw, cell="str",
                        rab=f("time_regional_train_A-B"), icab=f("time_inter_city_A-B"),
                        rba=f("time_regional_train_B-A"), icba=f("time_inter_city_B-A")))
    return out


def shipped_world(name, keep=None):
    """the shipped data set (or the trains in `keep`, in file order) as a world"""
    st = np.load(os.path.join(REPO, DATASETS[name][0]), allow_pickle=True)["arr_0"][()]
    trains = [t for t in shipped_trains(name) if keep is None or t["no"] in keep]
    used = {r["b"] for t in trains for r in t["rows"]}
    return dict(src=name, tref=DATASETS[name][2], trains=trains,
                stations=[dict(name=k, tracks=list(v)) for k, v in st.items()],
                links=[l for l in shipped_links() if l["a"] in used and l["b"] in used])


def shipped_numbers(name):
    return [t["no"] for t in shipped_trains(name)]


# ---------------------------------------------------------------- a world through the real code

class Built:
    """inputs of the code under test for a world, enriched by the code itself"""

    def __init__(self, w, enrich=True):
        import data_formatting.data_formatting as df
        self.w, self.df = w, df
        self.stations = stations_dict(w)
        self.network = shipped_network().copy() if "src" in w else network_df(w)
        self.rows = file_rows(w)
        self.data = read_csv(self.rows)
        self.err = ""
        self.td, self.err = call(df.timetable_to_train_dict, self.data)
        if enrich and not self.err:
            self.td, self.err = call(df.update_all_timetables, self.td, self.network, self.stations)


def read_worlds(path):
    with open(path) as f:
        return [json.loads(x) for x in f]


def resolve(w):
    """turn a request for a part of a shipped data set into a world"""
    if "ship" not in w:
        return w
    import random
    name = w["ship"]
    if w.get("whole"):
        return dict(shipped_world(name), whole=True)
    rnd = random.Random(w["pick"])
    trains = shipped_trains(name)
    t0 = rnd.choice(trains)
    # trains that meet t0 on the line or in a station, filled up at random
    used = {r["b"] for r in t0["rows"]}
    near = [t["no"] for t in trains if t is not t0 and used & {r["b"] for r in t["rows"]}]
    rnd.shuffle(near)
    keep = {t0["no"]} | set(near[:w["size"] - 1])
    rest = [t["no"] for t in trains if t["no"] not in keep]
    rnd.shuffle(rest)
    keep |= set(rest[:max(0, w["size"] - len(keep))])
    for t in trains:  # rolling-stock partners come together half of the time
        if t["no"] in keep and rnd.random() < 0.5:
            keep |= {x["no"] for x in trains if x["no"] in (t["no"] * 10 + 9,) or x["no"] * 10 + 9 == t["no"]}
    return shipped_world(name, keep)
