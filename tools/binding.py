#!/usr/bin/env python3
"""binding.py PROPERTY... - is the specification bound to what was recorded?

Runs the quick tier, spoils one value in each of the records (a number moved, a name
changed, a flag turned, an element dropped) and counts how many of the spoiled records
the judge refuses, per recorded field.  The description of the case (the input) is left
alone.  Not every spoiled answer is a wrong one: the type of an exception does not
matter, a question dropped together with its answer is no loss.
"""
import collections
import copy
import os
import random
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
import lib  # noqa: E402
import plans  # noqa: E402


INPUT = {"w", "I", "P", "f", "src", "kind", "cat", "cfg", "how"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path + ("-",)
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, (int, str)):
        yield path


def spoil(rec, rnd):
    """(spoiled copy, name of the spoiled field)"""
    groups = collections.defaultdict(list)
    for p in leaves({k: v for k, v in rec.items() if k not in INPUT}):
        groups[".".join(str(k) for k in p if not isinstance(k, int))].append(p)
    name = rnd.choice(sorted(groups))
    path = rnd.choice(groups[name])
    out = copy.deepcopy(rec)
    if path[-1] == "-":
        at = out
        for k in path[:-1]:
            at = at[k]
        at.pop(rnd.randrange(len(at)))
        return out, name
    at = out
    for k in path[:-1]:
        at = at[k]
    v = at[path[-1]]
    if isinstance(v, str):
        at[path[-1]] = {"T": "F", "F": "T"}.get(v, v + "x")
    else:
        at[path[-1]] = v + (1 if abs(v) < 12 else 1000)
    return out, name


class Spoiled(lib.Check):
    def judge(self, module, recs, consts=None, **kw):
        rnd = random.Random(self.seed)
        recs = [r for r in recs if r]
        sp = [spoil(rnd.choice(recs), rnd) for _ in range(min(400, 4 * len(recs)))]
        self.bad = []
        seen, found = collections.Counter(n for _, n in sp), collections.Counter()
        while sp:
            path = self.path("spoiled.ndjson")
            with open(path, "w") as f:
                for r, _ in sp:
                    f.write(lib.json.dumps(r) + "\n")
            try:
                res = self.tlc(module, dict(Prop=self.prop, **(consts or {})), env=dict(TRACE=path))
            except lib.Unreadable as e:
                found[sp.pop(e.record - 1)[1]] += 1
                continue
            for v in res.get("V", []):
                found[sp[v["i"] - 1][1]] += bool(v["bad"])
            break
        print("%s: %d of %d spoiled records refused" % (self.prop, sum(found.values()), sum(seen.values())))
        for n in sorted(seen):
            if found[n] < seen[n]:
                print("   %-40s refused %d of %d" % (n, found[n], seen[n]))

    def finish(self):
        return 0


for p in sys.argv[1:]:
    c = Spoiled(p, "quick")
    try:
        getattr(plans, p)(c)
    except lib.Machinery as e:
        print("%s: %s" % (p, str(e)[:300]))
    finally:
        c.close()
