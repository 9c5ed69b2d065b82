"""Figures as records: SAVED holds the figures written by savefig."""
from . import rcParams  # noqa: F401

SAVED = []
_now = {"fig": None}


class _Any:
    """accepts every call about looks"""

    def __getattr__(self, name):
        return _Any()

    def __call__(self, *a, **kw):
        return _Any()


class Axes:
    def __init__(self):
        self.series, self.title, self.ylabel, self.xlabel = [], "", "", ""

    def _add(self, kind, x, y, kw, fmt=""):
        x, y = list(x), list(y)
        if len(x) != len(y):
            raise ValueError("x and y must have same first dimension, but have shapes (%d,) and (%d,)" % (len(x), len(y)))
        c = kw.get("c", kw.get("color", kw.get("colors", "")))
        self.series.append(dict(kind=kind, x=x, y=y, colour=c, label=kw.get("label", ""), fmt=fmt, yerr=kw.get("yerr")))

    def plot(self, x, y, fmt="", **kw):
        self._add("plot", x, y, kw, fmt)

    def scatter(self, x, y, s=None, c=None, **kw):
        if c is not None:
            kw["c"] = c
        self._add("scatter", x, y, kw)

    def errorbar(self, x, y, yerr=None, fmt="", **kw):
        kw["yerr"] = yerr
        self._add("errorbar", x, y, kw, fmt)

    def set_title(self, t, *a, **kw):
        self.title = t

    def set_ylabel(self, t, *a, **kw):
        self.ylabel = t

    def set_xlabel(self, t, *a, **kw):
        self.xlabel = t

    def set(self, **kw):
        for k, v in kw.items():
            getattr(self, "set_" + k)(v)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Any()


class Figure:
    def __init__(self, n=0):
        self.axes = [Axes() for _ in range(n)]

    def gca(self):
        if not self.axes:
            self.axes.append(Axes())
        return self.axes[-1]

    def savefig(self, path, *a, **kw):
        SAVED.append(dict(path=str(path), axes=[dict(title=a.title, ylabel=a.ylabel, xlabel=a.xlabel, series=list(a.series)) for a in self.axes]))

    def add_subplot(self, *a, **kw):
        self.axes.append(Axes())
        return self.axes[-1]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Any()


def figure(*a, **kw):
    _now["fig"] = Figure()
    return _now["fig"]


def gcf():
    return _now["fig"] or figure()


def gca():
    return gcf().gca()


def subplots(nrows=1, ncols=1, **kw):
    f = _now["fig"] = Figure(nrows * ncols)
    if nrows * ncols == 1:
        return f, f.axes[0]
    return f, list(f.axes)


def plot(*a, **kw):
    gca().plot(*a, **kw)


def scatter(*a, **kw):
    gca().scatter(*a, **kw)


def errorbar(*a, **kw):
    gca().errorbar(*a, **kw)


def title(t, **kw):
    gca().set_title(t)


def xlabel(t, **kw):
    gca().set_xlabel(t)


def ylabel(t, **kw):
    gca().set_ylabel(t)


def savefig(path, *a, **kw):
    gcf().savefig(path)


def clf():
    f = gcf()
    f.axes = []


def close(*a):
    _now["fig"] = None


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _Any()
