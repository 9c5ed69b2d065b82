"""Sample sets of the dimod stand-in."""
from collections import namedtuple
from collections.abc import Mapping, Iterator
import numpy as np

from ._model import as_vartype


def as_samples(samples_like, dtype=None, copy=False, order="C", labels_type=list):
    if isinstance(samples_like, SampleSet):
        labels = list(samples_like.variables)
        return np.array([[s[v] for v in labels] for s in samples_like._rows]), labels
    if isinstance(samples_like, Iterator):
        samples_like = list(samples_like)
    if isinstance(samples_like, tuple) and len(samples_like) == 2 and not isinstance(samples_like[0], Mapping):
        arr, labels = samples_like
        arr = np.atleast_2d(np.array(arr))
        return arr, list(labels)
    if isinstance(samples_like, Mapping):
        labels = list(samples_like)
        return np.array([[samples_like[v] for v in labels]]), labels
    if isinstance(samples_like, (list, tuple)) and samples_like and isinstance(samples_like[0], Mapping):
        labels = list(samples_like[0])
        return np.array([[s[v] for v in labels] for s in samples_like]), labels
    arr = np.atleast_2d(np.array(samples_like))
    return arr, list(range(arr.shape[1]))


class SampleView(Mapping):
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __repr__(self):
        return repr(self._d)


class SampleSet(object):
    def __init__(self, rows, energies, num_occurrences, info, vartype, vectors=None):
        self._rows = rows
        self._en = list(energies)
        self._occ = list(num_occurrences)
        self._vec = {k: list(v) for k, v in (vectors or {}).items()}
        self.info = dict(info or {})
        self.vartype = vartype
        self.variables = list(rows[0]) if rows else []

    @property
    def record(self):
        n, m = len(self._rows), len(self.variables)
        arr = np.array([[r[v] for v in self.variables] for r in self._rows]) if n else np.zeros((0, m), dtype=int)
        vec = {k: np.array(v) for k, v in self._vec.items()}
        dt = [("sample", arr.dtype, (m,)), ("energy", float), ("num_occurrences", int)]
        dt += [(k, v.dtype, v.shape[1:]) for k, v in vec.items()]
        rec = np.zeros(n, dtype=dt).view(np.recarray)
        rec["energy"], rec["num_occurrences"] = self._en, self._occ
        if m:
            rec["sample"] = arr
        for k, v in vec.items():
            rec[k] = v
        return rec

    @classmethod
    def from_samples(cls, samples_like, vartype, energy, info=None, num_occurrences=None,
                     aggregate_samples=False, sort_labels=True, **vectors):
        arr, labels = as_samples(samples_like)
        rows = [dict(zip(labels, r)) for r in arr.tolist()]
        try:
            energy = list(energy)
        except TypeError:
            energy = [energy] * len(rows)
        if len(energy) != len(rows):
            raise ValueError("energy and samples of different length")
        new = cls(rows, energy, num_occurrences if num_occurrences is not None else [1] * len(rows),
                  info, as_vartype(vartype, extended=True), vectors)
        return new.aggregate() if aggregate_samples else new

    @classmethod
    def from_samples_bqm(cls, samples_like, bqm, **kw):
        arr, labels = as_samples(samples_like)
        rows = [dict(zip(labels, r)) for r in arr.tolist()]
        return cls.from_samples(rows, bqm.vartype, [bqm.energy(r) for r in rows], **kw)

    @classmethod
    def from_samples_cqm(cls, samples_like, cqm, **kw):
        arr, labels = as_samples(samples_like)
        rows = [dict(zip(labels, r)) for r in arr.tolist()]
        en = [cqm.objective.energy(r) for r in rows]
        sat = [[v <= 1e-6 for _, v in cqm.iter_violations(r)] for r in rows]
        info = dict(kw.get("info") or {}, constraint_labels=list(cqm.constraints))
        return cls(rows, en, [1] * len(rows), info, as_vartype("INTEGER", extended=True),
                   dict(is_satisfied=sat, is_feasible=[all(x) for x in sat]))

    def __len__(self):
        return len(self._rows)

    def __iter__(self):
        return iter(self.samples(sorted_by=None))

    def _order(self, sorted_by, reverse=False):
        o = range(len(self._rows))
        if sorted_by == "energy":
            o = sorted(o, key=lambda i: self._en[i])
        elif sorted_by == "num_occurrences":
            o = sorted(o, key=lambda i: self._occ[i])
        elif sorted_by is not None:
            o = sorted(o, key=lambda i: self._vec[sorted_by][i])
        o = list(o)
        return o[::-1] if reverse else o

    def samples(self, n=None, sorted_by="energy"):
        o = self._order(sorted_by)
        return [SampleView(self._rows[i]) for i in (o if n is None else o[:n])]

    def data(self, fields=None, sorted_by="energy", name="Sample", reverse=False,
             sample_dict_cast=True, index=False):
        fields = list(fields or ["sample", "energy", "num_occurrences"] + list(self._vec))
        T = namedtuple(name, fields + ["idx"] * index) if name else None
        for i in self._order(sorted_by, reverse):
            full = {"sample": dict(self._rows[i]) if sample_dict_cast else SampleView(self._rows[i]),
                    "energy": self._en[i], "num_occurrences": self._occ[i]}
            full.update((k, v[i]) for k, v in self._vec.items())
            vals = [full[f] for f in fields] + [i] * index
            yield T(*vals) if T else tuple(vals)

    @property
    def first(self):
        try:
            return next(self.data(sorted_by="energy"))
        except StopIteration:
            raise ValueError("%s is empty" % type(self).__name__)

    @property
    def data_vectors(self):
        return dict({"energy": np.array(self._en), "num_occurrences": np.array(self._occ)},
                    **{k: np.array(v) for k, v in self._vec.items()})

    def _pick(self, idx):
        return SampleSet([self._rows[i] for i in idx], [self._en[i] for i in idx],
                         [self._occ[i] for i in idx], self.info, self.vartype,
                         {k: [v[i] for i in idx] for k, v in self._vec.items()})

    def copy(self):
        return self._pick(range(len(self)))

    def lowest(self, rtol=1e-5, atol=1e-8):
        m = min(self._en) if self._en else 0
        return self._pick([i for i, e in enumerate(self._en) if abs(e - m) <= atol + rtol * abs(m)])

    def filter(self, pred):
        return self._pick([i for i, d in enumerate(self.data(sorted_by=None)) if pred(d)])

    def truncate(self, n, sorted_by="energy"):
        return self._pick(self._order(sorted_by)[:n])

    def slice(self, *args, sorted_by="energy"):
        return self._pick(self._order(sorted_by)[slice(*args)])

    def aggregate(self):
        first, occ = {}, []
        for i, r in enumerate(self._rows):
            k = tuple(r[v] for v in self.variables)
            if k in first:
                occ[first[k][1]] += self._occ[i]
            else:
                first[k] = (i, len(occ))
                occ.append(self._occ[i])
        new = self._pick([i for i, _ in first.values()])
        new._occ = occ
        return new

    def relabel_variables(self, mapping, inplace=True):
        new = self if inplace else self.copy()
        new._rows = [{mapping.get(v, v): x for v, x in r.items()} for r in new._rows]
        new.variables = [mapping.get(v, v) for v in new.variables]
        return new

    def to_pandas_dataframe(self, sample_column=False):
        import pandas as pd
        df = pd.DataFrame({"sample": [dict(r) for r in self._rows]} if sample_column else self._rows)
        df["energy"] = self._en
        df["num_occurrences"] = self._occ
        return df


def concatenate(samplesets, defaults=None):
    sets = list(samplesets)
    return SampleSet(sum((s._rows for s in sets), []), sum((s._en for s in sets), []),
                     sum((s._occ for s in sets), []), {}, sets[0].vartype)


import _lacking  # noqa: E402
_lacking.cls(SampleSet, """to_serializable append_variables change_vartype from_future is_writeable resolve done wait_id
                           from_serializable""")
