"""Offline stand-in for PyQUBO 1.3 (expressions up to degree two), see /verif/DESIGN.md."""
import math
import dimod

__version__ = "1.3.1"


class Express(object):
    def __add__(self, o):
        return _sum(self, o)

    def __radd__(self, o):
        return _sum(o, self)

    def __sub__(self, o):
        return _sum(self, Mul(-1, wrap(o)))

    def __rsub__(self, o):
        return _sum(o, Mul(-1, self))

    def __neg__(self):
        return Mul(-1, self)

    def __mul__(self, o):
        return Mul(self, o)

    def __rmul__(self, o):
        return Mul(o, self)

    def __truediv__(self, o):
        if isinstance(o, Express):
            raise ValueError("Expression cannot be divided by Expression.")
        return Mul(self, 1.0 / o)

    def __pow__(self, n):
        if int(n) != n or n < 1:
            raise ValueError("Expression should be powered by positive integer.")
        e = self
        for _ in range(int(n) - 1):
            e = Mul(e, self)
        return e

    def compile(self, strength=5.0):
        return Model(self)


class Num(Express):
    def __init__(self, x):
        self.x = float(x)


def wrap(x):
    return x if isinstance(x, Express) else Num(x)


class Add(Express):
    def __init__(self, terms):
        self.terms = terms


def _sum(a, b):
    """left-nested sums share one list: linear cost for sum(...)"""
    return Add([wrap(a), wrap(b)])


class Mul(Express):
    def __init__(self, a, b):
        self.a, self.b = wrap(a), wrap(b)


class Binary(Express):
    def __init__(self, label):
        self.label = label


class Spin(Express):
    def __init__(self, label):
        raise NotImplementedError("spin variables are not modelled by the stand-in")


class Placeholder(Express):
    def __init__(self, label):
        self.label = label


class SubH(Express):
    def __init__(self, hamiltonian, label, as_constraint=False):
        self.h, self.label = wrap(hamiltonian), label


class Constraint(SubH):
    def __init__(self, hamiltonian, label, condition=None):
        SubH.__init__(self, hamiltonian, label)


class WithPenalty(Express):
    def __init__(self, hamiltonian, penalty, label):
        self.h, self.penalty, self.label = wrap(hamiltonian), wrap(penalty), label


class Array(list):
    @staticmethod
    def create(name, shape, vartype):
        return Array([Binary("%s[%d]" % (name, i)) for i in range(shape)])


class LogEncInteger(Express):
    def __init__(self, label, value_range):
        lower, upper = value_range
        assert upper > lower, "upper value should be larger than lower value"
        assert isinstance(lower, int)
        assert isinstance(upper, int)
        self.label = label
        self.value_range = value_range
        span = upper - lower
        n = int(math.log2(span)) + 1
        self.array = Array.create(label, shape=n, vartype="BINARY")
        d = n - 1
        e = Num(lower)
        for i in range(d):
            e = e + self.array[i] * (2 ** i)
        e = e + (span - (2 ** d - 1)) * self.array[-1]
        self.express = SubH(e, label)


# ---- expansion: monomial (sorted tuple of labels) -> {placeholder monomial: coefficient}
def _pmul(p, q):
    if len(p) == 1 and () in p:
        c = p[()]
        return {k: v * c for k, v in q.items()}
    out = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(sorted(a + b))
            out[k] = out.get(k, 0.0) + x * y
    return out


def _padd(acc, q):
    for k, v in q.items():
        acc[k] = acc.get(k, 0.0) + v


def _expand(e, subh):
    if isinstance(e, Num):
        return {(): {(): e.x}}
    if isinstance(e, Binary):
        return {(e.label,): {(): 1.0}}
    if isinstance(e, Placeholder):
        return {(): {(e.label,): 1.0}}
    if isinstance(e, LogEncInteger):
        return _expand(e.express, subh)
    if isinstance(e, SubH):
        p = _expand(e.h, subh)
        subh[e.label] = p
        return p
    if isinstance(e, Add):
        flat, stack = [], [e]
        while stack:
            t = stack.pop()
            if isinstance(t, Add):
                stack.extend(t.terms)
            else:
                flat.append(t)
        out = {}
        for t in reversed(flat):
            for m, c in _expand(t, subh).items():
                if m in out:
                    _padd(out[m], c)
                else:
                    out[m] = dict(c)
        return out
    if isinstance(e, Mul):
        a, b = _expand(e.a, subh), _expand(e.b, subh)
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(set(m + n)))
                x = _pmul(c, d)
                if k in out:
                    _padd(out[k], x)
                else:
                    out[k] = x
        return out
    raise TypeError("unsupported expression %r" % (e,))


def _feed(poly, feed):
    out = {}
    for m, c in poly.items():
        s = 0.0
        for ph, x in c.items():
            for p in ph:
                if p not in feed:
                    raise ValueError("The placeholder %r is not given in feed_dict." % p)
                x = x * feed[p]
            s += x
        out[m] = s
    return out


class DecodedSample(object):
    def __init__(self, sample, energy, subh):
        self.sample, self.energy, self.subh = sample, energy, subh

    def constraints(self, only_broken=False):
        return {}

    def array(self, name, index):
        return self.sample["%s[%d]" % (name, index)]


class Model(object):
    def __init__(self, h):
        self._subh = {}
        self._poly = _expand(wrap(h), self._subh)
        if any(len(m) > 2 for m in self._poly):
            raise NotImplementedError("degree > 2 is not modelled by the stand-in")
        self.variables = sorted({v for m in self._poly for v in m})

    def to_bqm(self, index_label=False, feed_dict=None):
        p = _feed(self._poly, feed_dict or {})
        b = dimod.BinaryQuadraticModel("BINARY")
        for v in self.variables:
            b.add_variable(v)
        for m, x in p.items():
            if len(m) == 0:
                b.offset += x
            elif len(m) == 1:
                b.add_linear(m[0], x)
            else:
                b.add_quadratic(m[0], m[1], x)
        return b

    def to_qubo(self, index_label=False, feed_dict=None):
        p = _feed(self._poly, feed_dict or {})
        q, off = {}, 0.0
        for m, x in p.items():
            if len(m) == 0:
                off += x
            elif len(m) == 1:
                if x != 0:
                    q[(m[0], m[0])] = x
            else:
                q[(m[0], m[1])] = x
        return q, off

    def to_ising(self, index_label=False, feed_dict=None):
        return self.to_bqm(feed_dict=feed_dict).to_ising()

    def energy(self, sample, vartype, feed_dict=None):
        p = _feed(self._poly, feed_dict or {})
        return _val(p, sample)

    def decode_sample(self, sample, vartype, feed_dict=None):
        if not isinstance(sample, dict):
            sample = dict(zip(self.variables, sample))
        if vartype != "BINARY":
            sample = {k: (v + 1) // 2 for k, v in sample.items()}
        subh = {k: _val(_feed(p, feed_dict or {}), sample) for k, p in self._subh.items()}
        if getattr(self, "_fed", None) is None or self._fed[0] != feed_dict:
            self._fed = (dict(feed_dict or {}), _feed(self._poly, feed_dict or {}))
        return DecodedSample(dict(sample), _val(self._fed[1], sample), subh)

    def decode_sampleset(self, sampleset, feed_dict=None):
        return [self.decode_sample(dict(s), "BINARY", feed_dict) for s in sampleset.samples(sorted_by=None)]


def _val(p, sample):
    s = 0.0
    for m, x in p.items():
        t = x
        for v in m:
            t = t * sample[v]
            if not t:
                break
        s += t
    return s


import _lacking  # noqa: E402
_lacking.module(globals(), """OneHotEncInteger OrderEncInteger UnaryEncInteger Integer IntegerWithPenalty Base UserDefinedExpress Not And Or
    Xor NotConst AndConst OrConst XorConst Sum solve_qubo solve_ising assert_qubo_equal utils""")
_lacking.cls(Model, "decode_solution decode_dimod_response get_info")
