"""Parts of the real libraries the stand-ins do not model.

Code that asks for one of them cannot be followed here.  The request is noted in the file
$VERIF_LACKING, and a check that would otherwise report a failure gives no answer instead.
Names the real libraries do not have either are not in the lists: asking for those is the
error of the code it would be with the real library.
"""
import os


def note(owner, name):
    path = os.environ.get("VERIF_LACKING")
    if path:
        with open(path, "a") as f:
            f.write("%s.%s\n" % (owner, name))


def module(ns, names):
    names, owner = set(names.split()), ns["__name__"]

    def __getattr__(name):
        if name in names:
            note(owner, name)
        raise AttributeError("module %r has no attribute %r" % (owner, name))
    ns["__getattr__"] = __getattr__


def cls(c, names):
    names = set(names.split())

    def __getattr__(self, name):
        if name in names:
            note(type(self).__name__, name)
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, name))
    c.__getattr__ = __getattr__
