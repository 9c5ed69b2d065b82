"""Recorder for the diagram and listing scripts (C33).

usage: rec_diagram.py C33 REQUESTS.ndjson OUT.ndjson SEED
A request is a solution file drawn by spec/DiagramGen.tla, or the name of a
shipped one together with what to show; both scripts are run on it.
"""
import datetime
import pickle
import random
import re
import runpy
import signal
import sys
from collections import Counter

from common import *  # noqa: F401,F403

DIR = os.path.join(REPO, "solutions_quantum/data4diagrams")
BASE = datetime.datetime(2020, 1, 1)
NA = -100000
LETTERS = {"S'": "Ś", "s'": "ś", "o'": "ó", "l/": "ł", "a,": "ą", "e,": "ę"}
FIELDS = (("ra", "arrive"), ("rd", "departure"), ("ca", "conflicted_arrive"), ("cd", "conflicted_departure"))


def spell(s):
    for a, b in LETTERS.items():
        s = s.replace(a, b)
    return s


def plain(s):
    for a, b in LETTERS.items():
        s = s.replace(b, a)
    return s if s.isascii() else s.encode("unicode_escape").decode()


def station(x):
    s = spell(x["s"])
    return s.upper() if x["v"] == "upper" else s.lower() if x["v"] == "lower" else s


def minutes(t):
    d = t - BASE
    return int(d.total_seconds() // 60) if d.total_seconds() % 60 == 0 else NOTNUM


def make(f, rnd):
    """the solution file"""
    key = int if f["keys"] == "int" else str
    reals = []
    for trains in f["reals"]:
        out = {}
        for tr in trains:
            stops = list(tr["stops"])
            if f["shuffle"] == "T":
                rnd.shuffle(stops)
            out[key(tr["n"])] = {}
            for x in stops:
                x["w"] = plain(station(x))
                e = {name: BASE + datetime.timedelta(minutes=x[k]) for k, name in FIELDS if x[k] != NA}
                if x["rd"] != NA:
                    e["secondary delay"] = rnd.choice([0, 1, 7])
                out[key(tr["n"])][station(x)] = e
        reals.append(out)
    os.makedirs(os.path.dirname(os.path.abspath(f["name"])), exist_ok=True)
    with open(f["name"], "wb") as g:
        pickle.dump(dict(enumerate(reals, 1)) if f["sampled"] == "T" else reals[0], g)


def shipped(f):
    """request on a shipped file with that file's content"""
    path = os.path.join(DIR, f["shipped"])
    with open(path, "rb") as g:
        d = pickle.load(g)
    sampled = f["shipped"].startswith("cqm")
    reals = [d[k] for k in sorted(d)] if sampled else [d]

    def train(n, stops):
        return dict(n=int(n), stops=[dict({"s": plain(s), "v": "as", "w": plain(s)}, **{k: minutes(e[name]) if name in e else NA for k, name in FIELDS}) for s, e in stops.items()])
    return dict(f, sampled="T" if sampled else "F", reals=[[train(n, s) for n, s in r.items()] for r in reals], name=path, keys="int")


def run(script, args):
    before = list(sys.path), list(sys.argv)
    for m in ("railway_lines", "train_utils"):
        sys.modules.pop(m, None)
    sys.path.insert(0, DIR)
    sys.argv = [script] + args
    err = ""
    with quiet() as out:
        signal.alarm(CALL_LIMIT)
        try:
            runpy.run_path(os.path.join(DIR, script), run_name="__main__")
        except (Exception, SystemExit) as e:
            err = type(e).__name__ + (str(e) if isinstance(e, SystemExit) else "")
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc(file=sys.__stderr__)
        finally:
            signal.alarm(0)
    sys.path[:], sys.argv[:] = before
    return err, out.getvalue()


def clock(s):
    m = re.match(r"(\d+):(\d\d)$", s)
    return int(m.group(1)) * 60 + int(m.group(2)) if m else NOTNUM


def number(s):
    return int(s) if re.match(r"\d{1,8}$", s) else NOTNUM


def read_diagram(text):
    r = dict(paths=[], labels=[], tics=[], range=[], out="", unread=[])
    blocks, colours, name = {}, {}, None
    drawn = Counter()
    for line in text.split("\n"):
        w = line.split()
        m = re.match(r"\s*\$(\w+)\s*<<\s*(\w+)\s*$", line)
        if name is not None:
            if line.strip() == end:
                name = None
            else:
                blocks[name].append(w)
        elif m:
            name, end = m.groups()
            blocks[name] = []
        elif w[:2] == ["set", "output"]:
            r["out"] = line.split('"')[1]
        elif w[:2] == ["set", "xrange"]:
            r["range"] = [num(float(x)) for x in re.search(r"\[(.*)\]", line).group(1).split(":")]
        elif w[:2] == ["set", "xtics"]:
            r["tics"] = [dict(s=plain(a), km=num(float(b))) for a, b in re.findall(r'"([^"]*)"\s+([-\d.]+)', line)]
        elif w[:3] == ["set", "style", "line"]:
            colours[w[3]] = line.split('"')[1]
        elif w[:1] == ["plot"]:
            for e in re.split(r",\s*(?=\$)", line.strip()[4:].strip()):
                m = re.match(r"\$(\w+)\s+using\s+(\S+)\s+with\s+(\w+)(.*)$", e.strip())
                if not m or m.group(1) not in blocks:
                    if e.strip():
                        r["unread"].append(plain(e))
                    continue
                drawn[m.group(1)] += 1
                rows = blocks[m.group(1)]
                if m.group(3) == "lines":
                    ls = re.search(r"\bls\s+(\d+)", m.group(4))
                    r["paths"].append(dict(colour=colours.get(ls.group(1) if ls else "", ""), pts=[dict(km=num(float(x[0])), t=clock(x[1])) for x in rows]))
                elif m.group(3) == "labels":
                    r["labels"] += [dict(km=num(float(x[0])), t=clock(x[1]), n=number(x[2])) for x in rows]
                else:
                    r["unread"].append(plain(e))
    r["unread"] += sorted(b for b in blocks if drawn[b] != 1)
    return r


STAMP = r"(\d{4}-\d\d-\d\d(?: \d\d:\d\d:\d\d)?|NaT|None|NaN)"


def stamp(s):
    if not s[0].isdigit():
        return NA
    return minutes(datetime.datetime.strptime(s, "%Y-%m-%d %H:%M:%S" if " " in s else "%Y-%m-%d"))


def read_listing(text):
    out = []
    for line in text.split("\n"):
        m = re.match(r"(\S+) / (\w+)$", line)
        if m:
            out.append(dict(n=number(m.group(1)), status=m.group(2), rows=[]))
            continue
        m = re.match(r"\d+\s+(\S.*?)\s+" + STAMP + r"\s+" + STAMP + r"\s*$", line)
        if m:
            out[-1]["rows"].append(dict(w=plain(m.group(1)), a=stamp(m.group(2)), d=stamp(m.group(3))))
    return out


def C33(f, rnd):
    if "shipped" in f:
        f = shipped(f)
    else:
        make(f, rnd)
    args = [f["name"], "--segment", f["id"]]
    if f["id"] == "137138GLYKZ" and rnd.random() < 0.3:
        args = args[:1]
    if f["fixed"]:
        args += ["--fixedtrains", ",".join(map(str, f["fixed"]))]
    if f["real"] and not (f["real"] == 1 and rnd.random() < 0.3):
        args += ["--realisation", str(f["real"])]
    if f["eps"]:
        args += ["--epsfile", f["eps"]] + (["--epsbw"] if f["bw"] == "T" else [])
    err, text = run("echo_gnuplot_file.py", args)
    r = dict(f=f, err=err)
    r.update(read_diagram(text))
    r["lerr"], text = run("read_quantum_pickle.py", [f["name"], str(f["real"] or 1)])
    r["list"] = read_listing(text)
    return r


def main():
    prop, src, out, seed = sys.argv[1:5]
    os.chdir(os.environ["VERIF_SCRATCH"])
    with open(src) as g:
        items = [json.loads(x) for x in g]
    dump(out, [C33(f, random.Random("%s %s" % (seed, json.dumps(f, sort_keys=True)))) for f in items])


if __name__ == "__main__":
    main()
