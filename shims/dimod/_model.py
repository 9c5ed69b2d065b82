"""Quadratic models of the dimod stand-in (see DESIGN.md)."""
import enum
import math
import itertools
from collections import OrderedDict, namedtuple
from collections.abc import Mapping
from numbers import Number


class Vartype(enum.Enum):
    SPIN = frozenset({-1, 1})
    BINARY = frozenset({0, 1})
    INTEGER = "INTEGER"
    REAL = "REAL"


SPIN, BINARY, INTEGER, REAL = Vartype.SPIN, Vartype.BINARY, Vartype.INTEGER, Vartype.REAL


def as_vartype(v, extended=False):
    if isinstance(v, Vartype):
        return v
    if isinstance(v, str):
        return Vartype[v]
    if v == {0, 1}:
        return BINARY
    if v == {-1, 1}:
        return SPIN
    raise TypeError("unknown vartype %r" % (v,))


class Sense(enum.Enum):
    Le = "<="
    Ge = ">="
    Eq = "=="


class Comparison(object):
    def __init__(self, lhs, rhs, sense):
        self.lhs, self.rhs, self.sense = lhs, rhs, sense

    def violation(self, sample):
        a = self.lhs.energy(sample)
        if self.sense is Sense.Le:
            return max(a - self.rhs, 0)
        if self.sense is Sense.Ge:
            return max(self.rhs - a, 0)
        return abs(a - self.rhs)

    def to_polystring(self):
        return "%r %s %r" % (self.lhs, self.sense.value, self.rhs)

    def __repr__(self):
        return self.to_polystring()


class Le(Comparison):
    def __init__(self, lhs, rhs):
        Comparison.__init__(self, lhs, rhs, Sense.Le)


class Ge(Comparison):
    def __init__(self, lhs, rhs):
        Comparison.__init__(self, lhs, rhs, Sense.Ge)


class Eq(Comparison):
    def __init__(self, lhs, rhs):
        Comparison.__init__(self, lhs, rhs, Sense.Eq)

    def __bool__(self):
        return False


class _Quad(dict):
    """(u, v) -> bias, symmetric look-up."""

    def _k(self, k):
        if dict.__contains__(self, k):
            return k
        return (k[1], k[0])

    def __getitem__(self, k):
        return dict.__getitem__(self, self._k(k))

    def __setitem__(self, k, x):
        dict.__setitem__(self, self._k(k) if dict.__contains__(self, (k[1], k[0])) else k, x)

    def __contains__(self, k):
        return dict.__contains__(self, k) or dict.__contains__(self, (k[1], k[0]))

    def get(self, k, d=None):
        return self[k] if k in self else d


def _num(x):
    return isinstance(x, (int, float, Number)) or type(x).__module__ == "numpy"


class Variables(tuple):
    def index(self, v, *a):
        return tuple.index(self, v, *a)


class QuadraticModel(object):
    _DEFAULT_INT_UB = (1 << 53) - 1

    def __init__(self, linear=None, quadratic=None, offset=0, vartypes=None, dtype=None):
        self.linear = OrderedDict()
        self.quadratic = _Quad()
        self.offset = offset
        self._vt = OrderedDict()
        self._lb, self._ub = {}, {}
        for v, t in (vartypes or {}).items():
            self.add_variable(t, v)
        for v, b in (linear or {}).items():
            self.add_linear(v, b)
        for (u, v), b in (quadratic or {}).items():
            self.add_quadratic(u, v, b)

    # -- structure
    @property
    def variables(self):
        return Variables(self.linear)

    @property
    def num_variables(self):
        return len(self.linear)

    @property
    def num_interactions(self):
        return len(self.quadratic)

    @property
    def shape(self):
        return len(self.linear), len(self.quadratic)

    def is_linear(self):
        return not self.quadratic

    def vartype(self, v):
        return self._vt[v]

    def lower_bound(self, v):
        return self._lb[v]

    def upper_bound(self, v):
        return self._ub[v]

    def set_lower_bound(self, v, x):
        self._lb[v] = x

    def set_upper_bound(self, v, x):
        self._ub[v] = x

    def add_variable(self, vartype, v, lower_bound=0, upper_bound=None):
        vartype = as_vartype(vartype)
        if vartype is BINARY:
            lower_bound, upper_bound = 0, 1
        elif vartype is SPIN:
            lower_bound, upper_bound = -1, 1
        elif upper_bound is None:
            upper_bound = self._DEFAULT_INT_UB
        if v in self._vt:
            if self._vt[v] is not vartype:
                raise TypeError("conflicting vartypes for %r" % (v,))
            if self._lb[v] != lower_bound or self._ub[v] != upper_bound:
                raise ValueError("the specified bounds do not match those of %r" % (v,))
        self._vt[v] = vartype
        self._lb[v], self._ub[v] = lower_bound, upper_bound
        self.linear.setdefault(v, 0)
        return v

    def add_linear(self, v, b):
        if v not in self._vt:
            raise ValueError("unknown variable %r" % (v,))
        self.linear[v] += b

    def set_linear(self, v, b):
        self.linear[v] = b

    def get_linear(self, v):
        return self.linear[v]

    def get_quadratic(self, u, v, default=None):
        if (u, v) in self.quadratic:
            return self.quadratic[(u, v)]
        if default is None:
            raise ValueError
        return default

    def add_quadratic(self, u, v, b):
        if u == v:
            if self._vt[u] is BINARY:
                self.add_linear(u, b)
                return
            if self._vt[u] is SPIN:
                self.offset += b
                return
        self.quadratic[(u, v)] = self.quadratic.get((u, v), 0) + b

    def iter_linear(self):
        return iter(self.linear.items())

    def iter_quadratic(self):
        return ((u, v, b) for (u, v), b in self.quadratic.items())

    def degree(self, v):
        return sum(1 for k in self.quadratic if v in k)

    def _bare(self):
        return QuadraticModel()

    def copy(self):
        q = self._bare()
        q.linear = OrderedDict(self.linear)
        q.quadratic = _Quad(self.quadratic)
        q.offset = self.offset
        q._vt, q._lb, q._ub = OrderedDict(self._vt), dict(self._lb), dict(self._ub)
        return q

    # -- evaluation
    def energy(self, sample):
        if not isinstance(sample, Mapping):
            sample = dict(sample)
        e = self.offset
        for v, b in self.linear.items():
            if b:
                e += b * sample[v]
        for (u, v), b in self.quadratic.items():
            e += b * sample[u] * sample[v]
        return e

    def energies(self, samples_like, dtype=None):
        from ._samples import as_samples
        import numpy as np
        arr, labels = as_samples(samples_like)
        return np.array([self.energy(dict(zip(labels, row.tolist()))) for row in arr])

    # -- arithmetic
    def _merge_var(self, o, v):
        if v not in self._vt:
            self._vt[v] = o._vt[v]
            self._lb[v], self._ub[v] = o._lb[v], o._ub[v]
            self.linear[v] = 0
        elif self._vt[v] is not o._vt[v] or self._lb[v] != o._lb[v] or self._ub[v] != o._ub[v]:
            raise ValueError("conflicting definitions of variable %r" % (v,))

    def _iadd(self, o, k=1):
        if _num(o):
            self.offset += k * o
            return self
        if not isinstance(o, QuadraticModel):
            return NotImplemented
        for v, b in o.linear.items():
            self._merge_var(o, v)
            self.linear[v] += k * b
        for (u, v), b in o.quadratic.items():
            self.quadratic[(u, v)] = self.quadratic.get((u, v), 0) + k * b
        self.offset += k * o.offset
        return self

    def _gen(self):
        """copy typed as general as needed for in-place arithmetic"""
        return self.copy()

    def _result(self):
        return self

    def __add__(self, o):
        return _up(self, o)._iadd(o) if not _num(o) else self.copy()._iadd(o)

    __radd__ = __add__

    def __iadd__(self, o):
        return self + o

    def __sub__(self, o):
        return _up(self, o)._iadd(o, -1) if not _num(o) else self.copy()._iadd(o, -1)

    def __isub__(self, o):
        return self - o

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __mul__(self, o):
        if _num(o):
            q = self.copy()
            for v in q.linear:
                q.linear[v] *= o
            for k in list(q.quadratic):
                dict.__setitem__(q.quadratic, k, dict.__getitem__(q.quadratic, k) * o)
            q.offset *= o
            return q
        if isinstance(o, QuadraticModel):
            if not (self.is_linear() and o.is_linear()):
                raise TypeError("cannot multiply non-linear models")
            q = _up(self, o)
            for v in o.linear:
                q._merge_var(o, v)
            for v in q.linear:
                q.linear[v] = 0
            q.offset = self.offset * o.offset
            for u, a in self.linear.items():
                q.linear[u] += a * o.offset
            for v, b in o.linear.items():
                q.linear[v] += self.offset * b
            for u, a in self.linear.items():
                for v, b in o.linear.items():
                    if a * b:
                        q.add_quadratic(u, v, a * b)
            return q
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / o)

    def __pow__(self, n):
        if n == 1:
            return self.copy()
        if n == 2:
            return self * self
        raise ValueError("unsupported exponent")

    def __le__(self, o):
        if _num(o):
            return Le(self, o)
        return Le(self - o, 0)

    def __ge__(self, o):
        if _num(o):
            return Ge(self, o)
        return Ge(self - o, 0)

    def __eq__(self, o):
        if _num(o):
            return Eq(self, o)
        return self.is_equal(o)

    def __ne__(self, o):
        return not self.is_equal(o)

    __hash__ = None

    def is_equal(self, o):
        if not isinstance(o, QuadraticModel):
            return False
        if set(self.linear) != set(o.linear) or self.offset != o.offset or self._vt != dict(o._vt):
            return False
        if any(self.linear[v] != o.linear[v] for v in self.linear):
            return False
        if len(self.quadratic) != len(o.quadratic):
            return False
        return all(k in o.quadratic and o.quadratic[k] == b for k, b in self.quadratic.items())

    def __repr__(self):
        return "%s(%r, %r, %r)" % (type(self).__name__, dict(self.linear), dict(self.quadratic), self.offset)


class BinaryQuadraticModel(QuadraticModel):
    def __init__(self, *args, **kw):
        vartype = kw.pop("vartype", None)
        args = list(args)
        if vartype is None:
            vartype = args.pop()
        vartype = as_vartype(vartype)
        QuadraticModel.__init__(self)
        self._vartype = vartype
        linear = args.pop(0) if args else kw.get("linear", {})
        quadratic = args.pop(0) if args else kw.get("quadratic", {})
        self.offset = args.pop(0) if args else kw.get("offset", 0)
        for v, b in dict(linear).items():
            self.add_linear(v, b)
        for (u, v), b in dict(quadratic).items():
            self.add_quadratic(u, v, b)

    @property
    def vartype(self):
        return self._vartype

    def _bare(self):
        return BinaryQuadraticModel(self._vartype)

    def add_variable(self, v, bias=0, *a):
        if v not in self._vt:
            self._vt[v] = self._vartype
            self._lb[v] = -1 if self._vartype is SPIN else 0
            self._ub[v] = 1
            self.linear[v] = 0
        self.linear[v] += bias
        return v

    def add_linear(self, v, b):
        if v not in self._vt:
            self.add_variable(v)
        self.linear[v] += b

    def set_linear(self, v, b):
        self.add_variable(v)
        self.linear[v] = b

    def add_quadratic(self, u, v, b):
        for w in (u, v):
            if w not in self._vt:
                self.add_variable(w)
        if u == v:
            raise ValueError("%r cannot have an interaction with itself" % (u,))
        self.quadratic[(u, v)] = self.quadratic.get((u, v), 0) + b

    add_interaction = add_quadratic
    add_offset = lambda self, x: setattr(self, "offset", self.offset + x)

    @classmethod
    def from_qubo(cls, Q, offset=0):
        b = cls("BINARY")
        b.offset = offset
        for (u, v), x in Q.items():
            if u == v:
                b.add_linear(u, x)
            else:
                b.add_quadratic(u, v, x)
        return b

    def to_qubo(self):
        q = {(v, v): b for v, b in self.linear.items()}
        q.update(self.quadratic)
        return q, self.offset

    def to_ising(self):
        if self._vartype is SPIN:
            return dict(self.linear), dict(self.quadratic), self.offset
        h = {v: b / 2 for v, b in self.linear.items()}
        J = {}
        off = self.offset + sum(self.linear.values()) / 2
        for (u, v), b in self.quadratic.items():
            J[(u, v)] = b / 4
            h[u] += b / 4
            h[v] += b / 4
            off += b / 4
        return h, J, off

    @property
    def binary(self):
        return self

    def change_vartype(self, vartype, inplace=True):
        if as_vartype(vartype) is self._vartype:
            return self if inplace else self.copy()
        raise NotImplementedError


BQM = BinaryQuadraticModel
QM = QuadraticModel


def _up(a, b):
    """copy of a in a type able to hold a combined with b"""
    if isinstance(a, BinaryQuadraticModel) and not (
            isinstance(b, BinaryQuadraticModel) and b._vartype is a._vartype):
        q = QuadraticModel()
        q.linear = OrderedDict(a.linear)
        q.quadratic = _Quad(a.quadratic)
        q.offset = a.offset
        q._vt, q._lb, q._ub = OrderedDict(a._vt), dict(a._lb), dict(a._ub)
        return q
    return a.copy()


def _bqm_mul_fix():
    orig = QuadraticModel.__mul__

    def mul(self, o):
        if isinstance(o, BinaryQuadraticModel) and o._vartype is self._vartype and not _num(o):
            if not (self.is_linear() and o.is_linear()):
                raise TypeError("cannot multiply non-linear models")
            q = BinaryQuadraticModel(self._vartype)
            q.offset = self.offset * o.offset
            for v in itertools.chain(self.linear, o.linear):
                q.add_variable(v)
            for u, a in self.linear.items():
                q.linear[u] += a * o.offset
            for v, b in o.linear.items():
                q.linear[v] += self.offset * b
            for u, a in self.linear.items():
                for v, b in o.linear.items():
                    if a * b:
                        if u == v:
                            if self._vartype is BINARY:
                                q.linear[u] += a * b
                            else:
                                q.offset += a * b
                        else:
                            q.add_quadratic(u, v, a * b)
            return q
        return orig(self, o)

    BinaryQuadraticModel.__mul__ = mul
    BinaryQuadraticModel.__rmul__ = mul


_bqm_mul_fix()

_counter = itertools.count()


def Binary(label=None, bias=1, dtype=None):
    b = BinaryQuadraticModel("BINARY")
    b.add_variable(label if label is not None else "b%d" % next(_counter), bias)
    return b


def Spin(label=None, bias=1, dtype=None):
    b = BinaryQuadraticModel("SPIN")
    b.add_variable(label if label is not None else "s%d" % next(_counter), bias)
    return b


def Integer(label=None, bias=1, dtype=None, *, lower_bound=0, upper_bound=None):
    if upper_bound is not None and upper_bound < lower_bound:
        raise ValueError("lower_bound must be less than or equal to upper_bound")
    q = QuadraticModel()
    v = q.add_variable("INTEGER", label if label is not None else "i%d" % next(_counter),
                       lower_bound=lower_bound, upper_bound=upper_bound)
    q.set_linear(v, bias)
    return q


def Binaries(labels):
    return (Binary(v) for v in labels)


def Integers(labels):
    return (Integer(v) for v in labels)


def quicksum(iterable):
    it = iter(iterable)
    try:
        s = next(it)
    except StopIteration:
        return 0
    for x in it:
        s = s + x
    return s


class ConstrainedQuadraticModel(object):
    def __init__(self):
        self.objective = QuadraticModel()
        self.constraints = OrderedDict()
        self._all = QuadraticModel()
        self._auto = 0

    def _reg(self, model):
        for v in model.linear:
            self._all._merge_var(model, v)

    @property
    def variables(self):
        return self._all.variables

    def vartype(self, v):
        return self._all.vartype(v)

    def lower_bound(self, v):
        return self._all.lower_bound(v)

    def upper_bound(self, v):
        return self._all.upper_bound(v)

    def set_lower_bound(self, v, x):
        self._all.set_lower_bound(v, x)

    def set_upper_bound(self, v, x):
        self._all.set_upper_bound(v, x)

    def add_variable(self, vartype, v, lower_bound=0, upper_bound=None):
        return self._all.add_variable(vartype, v, lower_bound=lower_bound, upper_bound=upper_bound)

    def num_quadratic_variables(self):
        return 0

    def set_objective(self, obj):
        if _num(obj):
            q = QuadraticModel()
            q.offset = obj
            obj = q
        self._reg(obj)
        self.objective = _up(obj, None) if isinstance(obj, BinaryQuadraticModel) else obj.copy()

    def add_constraint(self, data, *args, **kw):
        if isinstance(data, Comparison):
            return self.add_constraint_from_comparison(data, *args, **kw)
        if isinstance(data, QuadraticModel):
            return self.add_constraint_from_model(data, *args, **kw)
        raise TypeError("unexpected data format %r" % (data,))

    def add_constraint_from_comparison(self, comp, label=None, copy=True, weight=None, penalty="linear"):
        return self.add_constraint_from_model(comp.lhs, comp.sense, comp.rhs, label=label)

    def add_constraint_from_model(self, qm, sense, rhs=0, label=None, copy=True, weight=None, penalty="linear"):
        if label is None:
            while "c%d" % self._auto in self.constraints:
                self._auto += 1
            label = "c%d" % self._auto
        elif label in self.constraints:
            raise ValueError("a constraint with that label already exists")
        self._reg(qm)
        sense = sense if isinstance(sense, Sense) else Sense(sense)
        cls = {Sense.Le: Le, Sense.Ge: Ge, Sense.Eq: Eq}[sense]
        self.constraints[label] = cls(qm.copy(), rhs)
        return label

    def check_feasible(self, sample, rtol=1e-6, atol=1e-8):
        return all(c.violation(sample) <= atol + rtol * abs(c.rhs) for c in self.constraints.values())

    def violations(self, sample):
        return {k: c.violation(sample) for k, c in self.constraints.items()}

    def iter_violations(self, sample):
        return iter(self.violations(sample).items())


CQM = ConstrainedQuadraticModel


def binary_encoding(v, upper_bound):
    max_pow = int(math.floor(math.log2(upper_bound)))
    b = BinaryQuadraticModel("BINARY")
    for e in range(max_pow):
        b.set_linear((v, 1 << e), 1 << e)
    val = upper_bound - ((1 << max_pow) - 1)
    b.set_linear((v, val, "msb"), val)
    return b


def cqm_to_bqm(cqm, lagrange_multiplier=None):
    bqm = BinaryQuadraticModel("BINARY")
    ints = {}
    for v in cqm.variables:
        if cqm.vartype(v) is INTEGER:
            if cqm.lower_bound(v) != 0:
                raise ValueError("integer variables must have lower bound 0")
            ints[v] = binary_encoding(v, int(cqm.upper_bound(v)))

    def enc(m):
        out = BinaryQuadraticModel("BINARY")
        out.offset = m.offset
        get = lambda v: ints[v] if v in ints else Binary(v)
        for v, b in m.linear.items():
            for w, c in get(v).linear.items():
                out.add_linear(w, b * c)
        for (u, v), b in m.quadratic.items():
            out = out + (get(u) * get(v)) * b
        return out

    bqm = enc(cqm.objective)
    if lagrange_multiplier is None:
        mx = max([abs(x) for x in list(bqm.linear.values()) + list(bqm.quadratic.values())] or [0])
        lagrange_multiplier = 10 * mx if mx else 1
    for name, c in cqm.constraints.items():
        lhs = enc(c.lhs)
        if c.sense is Sense.Ge:
            lhs, rhs, sense = lhs * -1, -c.rhs, Sense.Le
        else:
            rhs, sense = c.rhs, c.sense
        e = lhs - rhs
        if sense is Sense.Le:
            lo = e.offset + sum(min(b, 0) for b in e.linear.values())
            ub = int(-lo)
            if ub < 0:
                raise ValueError("infeasible constraint")
            if ub > 0:
                n = int(math.floor(math.log2(ub)))
                co = [1 << k for k in range(n)]
                if ub - (1 << n) >= 0:
                    co.append(ub - (1 << n) + 1)
                for k, a in enumerate(co):
                    e.add_linear("slack_%s_%d" % (name, k), a)
        bqm = bqm + (e * e) * lagrange_multiplier
    return bqm, (lambda sample: sample)


import _lacking  # noqa: E402
_QM = """degrees adj to_numpy_vectors to_numpy_matrix add_variables_from add_interactions_from set_quadratic remove_variable
         remove_interaction fix_variable fix_variables flip_variable relabel_variables normalize scale spin iter_neighborhood
         iter_interactions iter_variables from_ising empty is_almost_equal nbytes dtype reduce_linear reduce_quadratic
         reduce_neighborhood contract_variables to_file to_coo to_serializable update add_linear_from add_quadratic_from resize
         add_linear_from_array add_quadratic_from_dense add_linear_equality_constraint add_linear_inequality_constraint"""
_lacking.cls(QuadraticModel, _QM)
_lacking.cls(ConstrainedQuadraticModel, """discrete add_constraint_from_iterable add_discrete add_discrete_from_iterable add_discrete_from_model
         add_discrete_from_comparison add_variables num_variables iter_constraint_data from_bqm from_qm from_dqm from_quadratic_model
         fix_variable fix_variables flip_variable relabel_variables relabel_constraints remove_constraint num_biases
         num_quadratic_variables num_soft_constraints is_almost_equal is_equal is_linear to_file from_file spin_to_binary
         substitute_self_loops clear from_lp_file""")
