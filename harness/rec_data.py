"""Recorders for the timetable / train-set properties C01..C16.

usage: rec_data.py PROPERTY WORLDS.ndjson OUT.ndjson SEED
One output line per world; `err` non-empty when the code refused the world.
"""
import random
import sys

from common import *  # noqa: F401,F403
import common


def cells(df):
    """every cell of a block table as the text of the file"""
    out = []
    for _, r in df.iterrows():
        row = []
        for c in ["path", "speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting"]:
            row.append(string(r[c]) if c in r else "~missing")
        t = r["Turnaround_time_minutes"] if "Turnaround_time_minutes" in r else "~"
        n = num(t)
        row.append("" if n == -1000000001 else deci(n) if n > -900000000 else "~" + str(t))
        out.append(row)
    return out


def restless(w, rnd):
    """a timetable in which a train stands over two equal lines of the file, or comes back to a block"""
    t = rnd.choice(w["trains"])
    rows = [dict(r) for r in t["rows"]]
    i = rnd.randrange(len(rows))
    rows.insert(i if rnd.random() < 0.6 else rnd.randrange(len(rows) + 1), dict(rows[i]))
    return dict(w, trains=[dict(t, rows=rows) if u is t else u for u in w["trains"]])


def C01(w, rnd):
    if "src" not in w and rnd.random() < 0.3:
        w = restless(w, rnd)
    b = Built(w, enrich=False)
    if w.get("whole"):
        b.td, b.err = call(lambda: b.df.timetable_to_train_dict(pd.read_csv(os.path.join(REPO, DATASETS[w["src"]][1]), sep=";")))
    rows = [r[:7] + [r[7] if r[7] == "" else deci(num(float(r[7])))] for r in
            (shipped_rows(w["src"]) if w.get("whole") else b.rows)]
    rec = dict(src=w.get("src", "generated"), rows=rows, err=b.err, out=[], times=[])
    if not b.err:
        for no, e in b.td.items():
            e = list(e)
            rec["out"].append(dict(no=str(no) if isinstance(no, int) else "~" + str(no), info=seq(e[0], string), rows=cells(e[1])))
            v, err = call(b.df.get_arr_dep_vals, e[1])
            rec["times"].append(dict(err=err, v=[[] for _ in ()] if err else [seq(x, string) for x in v]))
            v, err = call(b.df.train_time_table, b.td, no)
            rec["out"][-1]["tt"] = cells(v) if not err else []
            v, err = call(b.df.get_arrdep, e[1])
            rec["out"][-1]["ad"] = [] if err else [seq(list(v.iloc[i]), string) for i in range(len(v))]
    return [rec]


def enriched(e):
    d = e[1]
    return dict(b=seq(d["path"].tolist(), string), t=seq(d["passing_time"].tolist(), num),
                lab=seq(d["important_station"].tolist(), string))


def C02(w, rnd):
    before = set(os.listdir("."))
    b = Built(w)
    df = b.df
    rec = dict(w=w, err=b.err, out=[], q=[], broken=[], seg=[], stray=sorted(set(os.listdir(".")) - before), stored=[])
    if b.err:
        return [rec]
    for no, e in b.td.items():
        rec["out"].append(dict(no=integer(no), **enriched(e)))
        v, err = call(df.passing_times_4blocks, e[1], b.network)
        rec["seg"].append(dict(no=integer(no), err=err, t=[] if err else seq(v, num)))
    blocks = sorted({x for l in w["links"] for x in (l["a"], l["b"])})
    qs = [(l["a"], l["b"]) for l in w["links"]]
    qs = qs if len(qs) < 14 else rnd.sample(qs, 14)
    qs += [(y, x) for x, y in qs[:8]]
    qs += [tuple(rnd.sample(blocks, 2)) for _ in range(5)] if len(blocks) > 1 else []
    for x, y in qs:
        for sp in ("R", "IC"):
            v, err = call(df.single_passing_time, [x, y, sp], b.network)
            rec["q"].append(dict(x=x, y=y, sp=sp, err=err, t=num(v) if not err else 0))
    b3 = Built(w, enrich=False)
    v, err = call(df.update_all_timetables, b3.td, b3.network, b3.stations, save=True)
    v, err = (None, err) if err else call(pd.read_pickle, "update_tables.pkl")
    rec["stored"] = [dict(no=0, b=[err], t=[], lab=[])] if err else [dict(no=integer(no), **enriched(e)) for no, e in v.items()]
    call(os.remove, "update_tables.pkl")
    # a route with a step that is no link must be refused
    for _ in range(3):
        t = rnd.choice(w["trains"])
        rows = [dict(r) for r in t["rows"]]
        i = rnd.randrange(len(rows))
        kind = rnd.choice(["drop", "swap", "other", "unknown"])
        if kind == "drop" and len(rows) > 2:
            del rows[i]
        elif kind == "swap" and len(rows) > 2:
            k = rnd.randrange(len(rows) - 1)
            rows[k], rows[k + 1] = rows[k + 1], rows[k]
        elif kind == "other":
            rows[i]["b"] = rnd.choice(blocks)
        else:
            rows[i]["b"] = '"nowhere", "X", 1'
        w2 = dict(w, trains=[dict(t, rows=rows) if u is t else u for u in w["trains"]])
        b2 = Built(w2)
        rec["broken"].append(dict(no=t["no"], route=[r["b"] for r in rows], sp=[r["sp"] for r in rows], err=b2.err))
    return [rec]


def C03(w, rnd):
    b = Built(w)
    df = b.df
    rec = dict(w=w, err=b.err)
    if b.err:
        return [rec]
    nos = [t["no"] for t in w["trains"]]
    names = [s["name"] for s in w["stations"]]
    v, e = call(df.get_Paths, b.td)
    rec["paths"] = [] if e else table(v, integer, lambda x: seq(x, string))
    v, e = call(df.get_J, b.td)
    rec["J"] = [] if e else seq(v, integer)
    rec["sts"] = []
    for n in nos:
        v, e = call(df.train_important_stations, b.td[n][1])
        rec["sts"].append(dict(k=n, v=[] if e else seq(v, string)))
    few = names if len(names) < 12 else sorted({s for p in rec["paths"] for s in p["v"]} & set(names))[:12]
    rec["next"], rec["at"], rec["passes"] = [], [], []
    for n in nos:
        for s in few + ["nowhere"]:
            v, e = call(df.subsequent_station, b.td[n][1], s)
            rec["next"].append(dict(n=n, s=s, v="~" + e if e else "" if v is None else string(v)))
            v, e = call(df.is_train_passing_thru_station, b.td[n][1], s)
            rec["passes"].append(dict(n=n, s=s, v=boolean(v) if not e else "~" + e))
            if s != "nowhere":
                v, e = call(df.blocks_list_4station, b.td[n][1], s, b.stations)
                rec["at"].append(dict(n=n, s=s, v=["~" + e] if e else seq(v, string)))
    for key, only in (("all", False), ("dep", True)):
        v, e = call(df.get_trains_at_station, b.td, b.stations, only)
        rec[key] = [] if e else table(v, string, lambda x: seq(x, integer))
    rec["common"] = []
    few = nos if len(nos) < 12 else rnd.sample(nos, 11)
    for n in few:
        for m in few:
            if n != m:
                v, e = call(df.check_common_station, b.td, n, m)
                rec["common"].append(dict(n=n, m=m, v=["~" + e] if e else seq(v, string)))
    # queries of the module that nothing else uses, as long as they are there
    import data_formatting.data_formatting.utils as u
    rec["blocks"], rec["of"] = [], []
    if hasattr(u, "check_common_blocks_elements"):
        for n in nos:
            for m in rnd.sample(nos, min(3, len(nos))):
                v, e = call(u.check_common_blocks_elements, b.td, n, m)
                rec["blocks"].append(dict(n=n, m=m, v=["~" + e] if e else seq(v, string)))
    if hasattr(u, "get_trains_with_same_stations"):
        v, e = call(u.get_trains_with_same_stations, b.td)
        rec["of"] = [dict(k="~" + e, v=[])] if e else table(v, string, lambda x: seq(x, integer))
    rec["hasof"] = hasattr(u, "get_trains_with_same_stations")
    # a station that also owns a block of the line
    rec["wide"] = []
    free = [(t["no"], r["b"]) for t in w["trains"] for r in t["rows"] if not any(r["b"] in s["tracks"] for s in w["stations"])]
    if free and "src" not in w:
        n, x = rnd.choice(free)
        s = rnd.choice([p for p in rec["sts"] if p["k"] == n][0]["v"] or names)
        w2 = dict(w, stations=[dict(y, tracks=list(rnd.sample(y["tracks"] + [x], len(y["tracks"]) + 1))) if y["name"] == s else y for y in w["stations"]])
        b2 = Built(w2)
        for m in nos if not b2.err else []:
            v, e = call(df.blocks_list_4station, b2.td[m][1], s, b2.stations)
            rec["wide"].append(dict(n=m, own=b2.stations[s], v=["~" + e] if e else seq(v, string)))
    v, e = call(df.get_skip_stations, b.td)
    rec["skip"] = [dict(k=0, v="~" + e)] if e else table(v, integer, string)
    return [rec]


def C04(w, rnd):
    b = Built(w)
    df = b.df
    rec = dict(w=w, err=b.err, q=[], sh=[])
    if b.err:
        return [rec]
    sts = {t["no"]: seq(call(df.train_important_stations, b.td[t["no"]][1])[0] or [], string) for t in w["trains"]}
    nos = list(sts)
    for n in nos:
        for s in sts[n]:
            for t in sts[n] + ["nowhere"]:
                if s != t:
                    v, e = call(df.get_blocks_b2win_station4train, b.td[n][1], s, t, False)
                    if not e:
                        try:
                            bl, rv = v
                        except Exception:
                            e = "shape"
                    rec["q"].append(dict(n=n, s=s, t=t, blocks=["~" + e] if e else seq(bl, string),
                                         rev="~" if e else "N" if rv is None else boolean(rv)))
    pairs = [(n, m, s, t) for n in nos for m in nos if n != m for s in sts[n] for t in sts[n]
             if s != t and s in sts[m] and t in sts[m]]
    if len(pairs) > 60:
        pairs = rnd.sample(pairs, 60)
    for n, m, s, t in pairs:
        v, e = call(df.get_common_blocks_and_direction_b2win_trains, b.td, n, m, s, t)
        if not e:
            try:
                bl, d = v
            except Exception:
                e = "shape"
        rec["sh"].append(dict(n=n, m=m, s=s, t=t, blocks=["~" + e] if e else seq(bl, string), dir="~" if e else string(d)))
    return [rec]


def C05(w, rnd):
    import data_formatting.data_formatting as df
    net = (shipped_network() if "src" in w else network_df(w))[["previous_block", "next_block"]]
    if "src" in w:
        used = {x for l in w["links"] for x in (l["a"], l["b"])}
        net = net[net["previous_block"].isin(used) & net["next_block"].isin(used)].reset_index(drop=True)
    blocks = sorted({x for l in w["links"] for x in (l["a"], l["b"])})
    routes = []
    for t in w["trains"]:
        p = [r["b"] for r in t["rows"]]
        routes += [p, list(reversed(p))]
        for _ in range(2):
            i = rnd.randrange(len(p))
            q = list(p)
            k = rnd.choice(["drop", "swap", "other", "unknown", "dup", "last", "first"])
            if k == "drop":
                del q[i]
            elif k == "swap":
                j = rnd.randrange(len(p))
                q[i], q[j] = q[j], q[i]
            elif k == "other":
                q[i] = rnd.choice(blocks)
            elif k == "unknown":
                q[i] = '"nowhere", "X", 1'
            elif k == "dup":
                q.insert(i, q[i])
            elif k == "last":
                q[-1] = rnd.choice(blocks)
            else:
                q[0] = rnd.choice(blocks)
            routes.append(q)
    q = []
    for i, r in enumerate(routes):
        arg = r if i % 2 else pd.Series(r, dtype=object)
        _, e = call(df.check_path_continuity, arg, net)
        q.append(dict(route=r, ok="F" if e else "T"))
    return [dict(w=dict(w, trains=[]), err="", q=q)]


def subsets(names, rnd):
    k = rnd.randint(1, max(1, len(names) - 1))
    return [s for s in names if s in set(rnd.sample(names, min(k, len(names))))]


def nested(v):
    out = []
    try:
        for s, d in v.items():
            for t, g in d.items():
                out.append(dict(s=string(s), t=string(t), groups=[seq(x, integer) for x in g]))
    except Exception:
        out.append(dict(s="~shape", t="", groups=[]))
    return out


def C06(w, rnd):
    b = Built(w)
    rec = dict(w=w, err=b.err, q=[])
    if b.err:
        return [rec]
    names = [s["name"] for s in w["stations"]]
    for imp in (None, subsets(names, rnd), [rnd.choice(names)]):
        v, e = call(b.df.jd, b.td, b.stations, imp) if imp else call(b.df.jd, b.td, b.stations)
        rec["q"].append(dict(imp=imp if imp else names, err=e, out=[] if e else nested(v)))
    return [rec]


def C07(w, rnd):
    b = Built(w)
    rec = dict(w=w, err=b.err, q=[])
    if b.err:
        return [rec]
    names = [s["name"] for s in w["stations"]]
    for imp in (None, subsets(names, rnd)):
        v, e = call(b.df.josingle, b.td, b.stations, imp) if imp else call(b.df.josingle, b.td, b.stations)
        out = []
        if not e:
            try:
                for k, ps in v.items():
                    for p in ps:
                        out.append(dict(s=string(k[0]), t=string(k[1]), j=integer(p[0]), m=integer(p[1])))
            except Exception:
                e = "shape"
        rec["q"].append(dict(imp=imp if imp else names, err=e, out=out))
    return [rec]


def C08(w, rnd):
    b = Built(w)
    rec = dict(w=w, err=b.err, q=[])
    if b.err:
        return [rec]
    names = [s["name"] for s in w["stations"]]
    for imp in (None, subsets(names, rnd)):
        v, e = call(b.df.jtrack, b.td, b.stations, imp) if imp else call(b.df.jtrack, b.td, b.stations)
        rec["q"].append(dict(imp=imp if imp else names, err=e,
                             out=[] if e else table(v, string, lambda g: seq(g, lambda x: seq(x, integer)))))
    return [rec]


def C09(w, rnd):
    b = Built(w)
    df = b.df
    rec = dict(w=w, err=b.err, q=[], z=[])
    if b.err:
        return [rec]
    names = [s["name"] for s in w["stations"]]
    for imp in (None, subsets(names, rnd)):
        v, e = call(df.jswitch, b.td, b.stations, b.network, imp) if imp else call(df.jswitch, b.td, b.stations, b.network)
        out = []
        if not e:
            try:
                for s, ps in v.items():
                    for p in ps:
                        it = list(p.items())
                        out.append(dict(s=string(s), mv=[dict(n=integer(k), d=string(x)) for k, x in it]))
            except Exception:
                e = "shape"
        rec["q"].append(dict(imp=imp if imp else names, err=e, out=out))
    paths, _ = call(df.get_Paths, b.td)
    at, _ = call(df.get_trains_at_station, b.td, b.stations, False)
    for s in names:
        trains = at.get(s, []) if at else []
        sb = {j: call(df.blocks_list_4station, b.td[j][1], s, b.stations)[0] for j in trains}
        bl = {j: b.td[j][1]["path"].tolist() for j in trains}
        for j in trains:
            for d, f in (("in", df.z_in), ("out", df.z_out)):
                v, e = call(f, b.network, j, s, paths, sb, bl)
                rec["z"].append(dict(n=integer(j), s=s, d=d, v=[NOTNUM] if e else sorted(set(seq(v, integer)))))
    return [rec]


def C10(w, rnd):
    b = Built(w)
    df = b.df
    rec = dict(w=w, err=b.err, pairs=[], q=[])
    if b.err:
        return [rec]
    v, e = call(df.get_trains_pair9, b.td)
    rec["pairs"] = [[0, 0]] if e else [[integer(p[0]), integer(p[1])] for p in v]
    v, e = call(df.get_jround, b.td, b.stations)
    out = []
    if not e:
        try:
            for s, ps in v.items():
                for p in ps:
                    out.append(dict(s=string(s), a=integer(p[0]), b=integer(p[1]), n=len(p)))
        except Exception:
            e = "shape"
    rec["q"].append(dict(err=e, out=out))
    return [rec]


def rounds(rnd):
    """rounding asked for, and not"""
    return (1, rnd.choice([0, 0, 2, 5]))


def res(r, rnd):
    """argument asking for resolution r; one is the default"""
    return {} if r == 1 and rnd.random() < 0.5 else dict(r=r)


def C11(w, rnd):
    b = Built(w)
    rec = dict(w=w, err=b.err, q=[])
    if b.err:
        return [rec]
    nos = [t["no"] for t in w["trains"]]
    for r in rounds(rnd):
        for sub in (None, rnd.sample(nos, rnd.randint(1, len(nos)))):
            v, e = call(b.df.get_taus_pass, b.td, trains=sub, **res(r, rnd))
            rec["q"].append(dict(r=r, trains=sub if sub else nos, err=e, out=[] if e else table(v, key3)))
    return [rec]


def C12(w, rnd):
    import helpers
    b = Built(w)
    df = b.df
    rec = dict(w=w, err=b.err, q=[])
    if b.err:
        return [rec]
    nos = [t["no"] for t in w["trains"]]
    for r in rounds(rnd):
        for sub in (None, rnd.sample(nos, rnd.randint(1, len(nos)))):
            v, e = call(df.get_taus_stop, b.td, b.stations, trains=sub, **res(r, rnd))
            if not e and not (isinstance(v, tuple) and len(v) == 2):
                e = "shape"
            rec["q"].append(dict(f="stop", r=r, trains=sub if sub else nos, err=e,
                                 stop=[] if e else table(v[0], key2), prep=[] if e else table(v[1], key2)))
        v, e = call(df.get_taus_prep, b.td, b.stations, **res(r, rnd))
        rec["q"].append(dict(f="prep", r=r, trains=nos, err=e, stop=[], prep=[] if e else table(v, key2)))
        v, e = call(helpers.make_taus, b.td, b.stations, r)
        rec["q"].append(dict(f="taus", r=r, trains=nos, err=e, stop=[] if e else table(v["stop"], key2),
                             prep=[] if e else table(v["prep"], key2)))
    if len(nos) < 6:
        v, e = call(helpers.make_timetable, b.td, b.stations, {})
        rec["q"].append(dict(f="taus", r=1, trains=nos, err=e, stop=[] if e else table(v["tau"]["stop"], key2),
                             prep=[] if e else table(v["tau"]["prep"], key2)))
    return [rec]


def C13(w, rnd):
    b = Built(w)
    rec = dict(w=w, err=b.err, q=[])
    if b.err:
        return [rec]
    for r in rounds(rnd):
        v, e = call(b.df.get_taus_headway, b.td, b.stations, **res(r, rnd))
        rec["q"].append(dict(r=r, err=e, out=[] if e else table(v, key4)))
    return [rec]


def twins(name):
    """the public function and, while there is one, the function of the same name in utils"""
    import data_formatting.data_formatting as df
    import data_formatting.data_formatting.utils as u
    f = getattr(df, name)
    return [f] + [g for g in [getattr(u, name, f)] if g is not f]


def C14(w, rnd):
    import helpers
    b = Built(w)
    rec = dict(w=w, err=b.err, q=[])
    if b.err:
        return [rec]
    for tref in (w["tref"], rnd.choice([0, 1, 540, 901, 959, 961, 1100, 1439])):
        t1 = "%02d:%02d" % (tref // 60, tref % 60)
        for f, g in zip(twins("get_schedule"), twins("get_initial_conditions")):
            v, e = call(f, b.td, t1)
            v2, e2 = call(g, b.td, t1)
            rec["q"].append(dict(tref=tref, err=e or e2, sched=[] if e else table(v, key2), init=[] if e2 else table(v2, key2)))
    for tref in (w["tref"], 960):
        v, e = call(helpers.make_timetable, b.td, b.stations, {}, **dict({} if tref == 960 else dict(t1=hm(w)), taus={}))
        rec["q"].append(dict(tref=tref, err=e, sched=[] if e else table(v["schedule"], key2), init=[] if e else table(v["initial_conditions"], key2)))
    return [rec]


def C15(item, rnd):
    """replay a history of disturbances on a given table or on the table of a world"""
    import data_formatting.data_formatting as df
    if "init" in item:
        init = {"%d_%s" % tuple(e["k"]): e["v"] / 1000.0 if e["v"] % 1000 else e["v"] // 1000 for e in item["init"]}
        err, hist = "", item["hist"]
    else:
        b = Built(item)
        init, err = (None, b.err) if b.err else call(df.get_initial_conditions, b.td, hm(item))
        init = {} if err else init
        nos = [t["no"] for t in item["trains"]]
        nos += [n * 10 + 1 for n in nos if n < 10 ** 7][:2] + [n % 1000 for n in nos][:2]
        hist = [[rnd.choice(nos), rnd.choice([1000, 7000, 15000, -3000, 2500, 0])] for _ in range(rnd.randint(2, 6))]
    out = []
    for add_delay in twins("add_delay"):
        rec = dict(err=err, init=table(init, key2), steps=[])
        out.append(rec)
        cur = dict(init)
        for n, d in hist:
            new, e = call(add_delay, cur, n, d / 1000.0 if d % 1000 else d // 1000)
            rec["steps"].append(dict(n=n, d=d, err=e, out=[] if e else table(new, key2), inp=table(cur, key2)))
            if e:
                break
            cur = new
    return out


def C16(w, rnd):
    import helpers
    b = Built(w)
    df = b.df
    rec = dict(w=w, err=b.err, q=[])
    if b.err:
        return [rec]
    true_skip, e = call(df.get_skip_stations, b.td)
    true_skip = {} if e else true_skip
    some = {k: v for k, v in true_skip.items() if rnd.random() < 0.5}
    odd = {t["no"]: rnd.choice(w["stations"])["name"] for t in w["trains"] if rnd.random() < 0.5}
    for skips in (true_skip, {}, some, odd):
        for cfg in (None, [rnd.randrange(1, 40) * 125 for _ in range(3)] + [rnd.choice([0, 250, 77000])]):
            kw = {} if cfg is None else dict(zip(("stopping", "fast", "express", "empty"), (x / 1000.0 for x in cfg)))
            v, e = call(df.make_weights, b.td, dict(skips), **kw)
            c = cfg or [1000, 1500, 1750, 0]
            rec["q"].append(dict(cfg=dict(stopping=c[0], fast=c[1], express=c[2], empty=c[3]),
                                 skips=table(skips, integer, string), err=e, out=[] if e else table(v, key2)))
        v, e = call(helpers.make_timetable, b.td, b.stations, dict(skips), taus={})
        rec["q"].append(dict(cfg=dict(stopping=1000, fast=1500, express=1750, empty=0), skips=table(skips, integer, string), err=e,
                             out=[] if e else table(v["penalty_weights"], key2)))
    return [rec]


if __name__ == "__main__":
    prop, src, out, seed = sys.argv[1:5]
    rnd = random.Random(int(seed))
    dump(out, [r for w in read_worlds(src) for r in globals()[prop](resolve(w), rnd)])
