"""Stand-in for the PuLP 2.5 modelling layer.

Only the *modelling* semantics is reproduced (variables, affine expressions,
constraints, problems); `solve` delegates to an external HiGHS process.  The
names, bounds, mangling and ordering rules are those of PuLP 2.5.1.
"""
import itertools
import math
import os
import re
import json
import subprocess
import tempfile
import warnings
from collections import OrderedDict
from collections.abc import Iterable
from numbers import Number

from . import constants as const
from .constants import *  # noqa


def _is_number(x):
    if isinstance(x, (int, float)):
        return True
    return isinstance(x, Number) or type(x).__module__ == "numpy"


class LpElement(object):
    illegal_chars = "-+[] ->/"
    expression = re.compile("[{}]".format(re.escape("-+[] ->/")))
    trans = str.maketrans("-+[] ->/", "________")

    def setName(self, name):
        if name:
            self.__name = str(name).translate(self.trans)
        else:
            self.__name = None

    def getName(self):
        return self.__name

    name = property(fget=getName, fset=setName)

    def __init__(self, name):
        self.name = name
        self.hash = id(self)
        self.modified = True

    def __hash__(self):
        return self.hash

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name

    def __neg__(self):
        return -LpAffineExpression(self)

    def __pos__(self):
        return self

    def __bool__(self):
        return True

    def __add__(self, other):
        return LpAffineExpression(self) + other

    def __radd__(self, other):
        return LpAffineExpression(self) + other

    def __sub__(self, other):
        return LpAffineExpression(self) - other

    def __rsub__(self, other):
        return other - LpAffineExpression(self)

    def __mul__(self, other):
        return LpAffineExpression(self) * other

    def __rmul__(self, other):
        return LpAffineExpression(self) * other

    def __truediv__(self, other):
        return LpAffineExpression(self) / other

    def __rtruediv__(self, other):
        raise TypeError("Expressions cannot be divided by a variable")

    def __le__(self, other):
        return LpAffineExpression(self) <= other

    def __ge__(self, other):
        return LpAffineExpression(self) >= other

    def __eq__(self, other):
        return LpAffineExpression(self) == other

    def __ne__(self, other):
        if isinstance(other, LpVariable):
            return self.name is not other.name
        elif isinstance(other, LpAffineExpression):
            if other.isAtomic():
                return self is not other.atom()
            else:
                return 1
        else:
            return 1


class LpVariable(LpElement):
    def __init__(self, name, lowBound=None, upBound=None, cat=const.LpContinuous, e=None):
        LpElement.__init__(self, name)
        self._lowbound_original = self.lowBound = lowBound
        self._upbound_original = self.upBound = upBound
        self.cat = cat
        self.varValue = None
        self.dj = None
        if cat == const.LpBinary:
            self._lowbound_original = self.lowBound = 0
            self._upbound_original = self.upBound = 1
            self.cat = const.LpInteger
        if e:
            self.add_expression(e)

    def add_expression(self, e):
        self.expression = e

    @classmethod
    def matrix(cls, name, indices=None, lowBound=None, upBound=None, cat=const.LpContinuous,
               indexStart=None, indexs=None):
        if indices is None:
            indices = indexs
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        indexStart = [] if indexStart is None else indexStart
        index = indices[0]
        indices = indices[1:]
        if len(indices) == 0:
            return [LpVariable(name % tuple(indexStart + [i]), lowBound, upBound, cat) for i in index]
        return [LpVariable.matrix(name, indices, lowBound, upBound, cat, indexStart + [i]) for i in index]

    @classmethod
    def dicts(cls, name, indices=None, lowBound=None, upBound=None, cat=const.LpContinuous,
              indexStart=None, indexs=None):
        if indices is None:
            indices = indexs
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        indexStart = [] if indexStart is None else indexStart
        index = indices[0]
        indices = indices[1:]
        d = {}
        if len(indices) == 0:
            for i in index:
                d[i] = LpVariable(name % tuple(indexStart + [str(i)]), lowBound, upBound, cat)
        else:
            for i in index:
                d[i] = LpVariable.dicts(name, indices, lowBound, upBound, cat, indexStart + [i])
        return d

    @classmethod
    def dict(cls, name, indices, lowBound=None, upBound=None, cat=const.LpContinuous):
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        lists = indices
        if len(indices) > 1:
            res = list(itertools.product(*lists))
        elif len(indices) == 1:
            res = [(i,) for i in lists[0]]
        else:
            res = []
        d = {}
        for i in res:
            key = i if len(i) > 1 else i[0]
            d[key] = cls(name % tuple(i), lowBound, upBound, cat)
        return d

    def getLb(self):
        return self.lowBound

    def getUb(self):
        return self.upBound

    def bounds(self, low, up):
        self.lowBound = low
        self.upBound = up
        self.modified = True

    def positive(self):
        self.bounds(0, None)

    def value(self):
        return self.varValue

    def round(self, epsInt=1e-5, eps=1e-7):
        if self.varValue is not None:
            if self.upBound is not None and self.varValue > self.upBound and self.varValue <= self.upBound + eps:
                self.varValue = self.upBound
            elif self.lowBound is not None and self.varValue < self.lowBound and self.varValue >= self.lowBound - eps:
                self.varValue = self.lowBound
            if self.cat == const.LpInteger and abs(round(self.varValue) - self.varValue) <= epsInt:
                self.varValue = round(self.varValue)

    def roundedValue(self, eps=1e-5):
        if (self.cat == const.LpInteger and self.varValue is not None
                and abs(self.varValue - round(self.varValue)) <= eps):
            return round(self.varValue)
        return self.varValue

    def valueOrDefault(self):
        if self.varValue is not None:
            return self.varValue
        if self.lowBound is not None:
            if self.upBound is not None:
                if 0 >= self.lowBound and 0 <= self.upBound:
                    return 0
                return self.lowBound if self.lowBound >= 0 else self.upBound
            return 0 if 0 >= self.lowBound else self.lowBound
        if self.upBound is not None:
            return 0 if 0 <= self.upBound else self.upBound
        return 0

    def isBinary(self):
        return self.cat == const.LpInteger and self.lowBound == 0 and self.upBound == 1

    def isInteger(self):
        return self.cat == const.LpInteger

    def isFree(self):
        return self.lowBound is None and self.upBound is None

    def isConstant(self):
        return self.lowBound is not None and self.upBound == self.lowBound

    def isPositive(self):
        return self.lowBound == 0 and self.upBound is None

    def setInitialValue(self, val, check=True):
        self.varValue = val
        return True

    def fixValue(self):
        self._lowbound_unfix, self._upbound_unfix = self.lowBound, self.upBound
        if self.varValue is not None:
            self.bounds(self.varValue, self.varValue)

    def unfixValue(self):
        self.bounds(self._lowbound_original, self._upbound_original)

    __hash__ = LpElement.__hash__

    def __eq__(self, other):
        return LpElement.__eq__(self, other)

    def __ne__(self, other):
        if isinstance(other, LpElement):
            return self.name is not other.name
        elif isinstance(other, LpAffineExpression):
            if other.isAtomic():
                return self is not other.atom()
            return 1
        return 1

    def __bool__(self):
        return True


class LpAffineExpression(OrderedDict):
    trans = LpElement.trans

    def setName(self, name):
        self.__name = str(name).translate(self.trans) if name else None

    def getName(self):
        return self.__name

    name = property(fget=getName, fset=setName)

    def __init__(self, e=None, constant=0, name=None):
        self.name = name
        if e is None:
            e = {}
        if isinstance(e, LpAffineExpression):
            self.constant = e.constant
            super().__init__(list(e.items()))
        elif isinstance(e, dict):
            self.constant = constant
            super().__init__(list(e.items()))
        elif isinstance(e, LpElement):
            self.constant = 0
            super().__init__([(e, 1)])
        elif isinstance(e, Iterable) and not _is_number(e):
            self.constant = constant
            super().__init__(e)
        else:
            self.constant = e
            super().__init__()

    def isAtomic(self):
        return len(self) == 1 and self.constant == 0 and list(self.values())[0] == 1

    def isNumericalConstant(self):
        return len(self) == 0

    def atom(self):
        return list(self.keys())[0]

    def __bool__(self):
        return (float(self.constant) != 0.0) or (len(self) > 0)

    def value(self):
        s = self.constant
        for v, x in self.items():
            if v.varValue is None:
                return None
            s += v.varValue * x
        return s

    def valueOrDefault(self):
        s = self.constant
        for v, x in self.items():
            s += v.valueOrDefault() * x
        return s

    def addterm(self, key, value):
        y = self.get(key, 0)
        if y:
            y += value
            self[key] = y
        else:
            self[key] = value

    def emptyCopy(self):
        return LpAffineExpression()

    def copy(self):
        return LpAffineExpression(self)

    def sorted_keys(self):
        return sorted(self.keys(), key=lambda v: v.name)

    def __str__(self, constant=1):
        s = ""
        for v in self.sorted_keys():
            val = self[v]
            if val < 0:
                s += " - " if s != "" else "-"
                val = -val
            elif s != "":
                s += " + "
            s += str(v) if val == 1 else str(val) + "*" + str(v)
        if constant:
            if s == "":
                s = str(self.constant)
            else:
                if self.constant < 0:
                    s += " - " + str(-self.constant)
                elif self.constant > 0:
                    s += " + " + str(self.constant)
        elif s == "":
            s = "0"
        return s

    def __repr__(self):
        items = [str(self[v]) + "*" + str(v) for v in self.sorted_keys()]
        items.append(str(self.constant))
        return " + ".join(items)

    def addInPlace(self, other):
        if isinstance(other, int) and other == 0:
            return self
        if other is None:
            return self
        if isinstance(other, LpElement):
            self.addterm(other, 1)
        elif isinstance(other, LpAffineExpression):
            self.constant += other.constant
            for v, x in other.items():
                self.addterm(v, x)
        elif isinstance(other, dict):
            for e in other.values():
                self.addInPlace(e)
        elif isinstance(other, (list, tuple)) or (isinstance(other, Iterable) and not _is_number(other)):
            for e in other:
                self.addInPlace(e)
        else:
            self.constant += other
        return self

    def subInPlace(self, other):
        if isinstance(other, int) and other == 0:
            return self
        if other is None:
            return self
        if isinstance(other, LpElement):
            self.addterm(other, -1)
        elif isinstance(other, LpAffineExpression):
            self.constant -= other.constant
            for v, x in other.items():
                self.addterm(v, -x)
        elif isinstance(other, dict):
            for e in other.values():
                self.subInPlace(e)
        elif isinstance(other, (list, tuple)) or (isinstance(other, Iterable) and not _is_number(other)):
            for e in other:
                self.subInPlace(e)
        else:
            self.constant -= other
        return self

    def __neg__(self):
        e = LpAffineExpression()
        e.constant = -self.constant
        for v, x in self.items():
            e[v] = -x
        return e

    def __pos__(self):
        return self

    def __add__(self, other):
        return self.copy().addInPlace(other)

    def __radd__(self, other):
        return self.copy().addInPlace(other)

    def __iadd__(self, other):
        return self.addInPlace(other)

    def __sub__(self, other):
        return self.copy().subInPlace(other)

    def __rsub__(self, other):
        return (-self).addInPlace(other)

    def __isub__(self, other):
        return self.subInPlace(other)

    def __mul__(self, other):
        e = LpAffineExpression()
        if isinstance(other, LpAffineExpression):
            e.constant = self.constant * other.constant
            if len(other):
                if len(self):
                    raise TypeError("Non-constant expressions cannot be multiplied")
                c = self.constant
                if c != 0:
                    for v, x in other.items():
                        e[v] = c * x
            else:
                c = other.constant
                if c != 0:
                    for v, x in self.items():
                        e[v] = c * x
        elif isinstance(other, LpVariable):
            return self * LpAffineExpression(other)
        else:
            if other != 0:
                e.constant = self.constant * other
                for v, x in self.items():
                    e[v] = other * x
        return e

    def __rmul__(self, other):
        return self * other

    def __truediv__(self, other):
        if isinstance(other, (LpAffineExpression, LpVariable)):
            if isinstance(other, LpVariable) or len(other):
                raise TypeError("Expressions cannot be divided by a non-constant expression")
            other = other.constant
        e = LpAffineExpression()
        e.constant = self.constant / other
        for v, x in self.items():
            e[v] = x / other
        return e

    def __rtruediv__(self, other):
        e = LpAffineExpression()
        if len(self):
            raise TypeError("Expressions cannot be divided by a non-constant expression")
        e.constant = other / self.constant
        return e

    def __le__(self, other):
        return LpConstraint(self - other, const.LpConstraintLE)

    def __ge__(self, other):
        return LpConstraint(self - other, const.LpConstraintGE)

    def __eq__(self, other):
        return LpConstraint(self - other, const.LpConstraintEQ)

    __hash__ = None

    def toDict(self):
        return [dict(name=k.name, value=v) for k, v in self.items()]

    to_dict = toDict


class LpConstraint(LpAffineExpression):
    def __init__(self, e=None, sense=const.LpConstraintEQ, name=None, rhs=None):
        LpAffineExpression.__init__(self, e, name=name)
        if rhs is not None:
            self.constant -= rhs
        self.sense = sense
        self.pi = None
        self.slack = None
        self.modified = True

    def getLb(self):
        if self.sense in (const.LpConstraintGE, const.LpConstraintEQ):
            return -self.constant
        return None

    def getUb(self):
        if self.sense in (const.LpConstraintLE, const.LpConstraintEQ):
            return -self.constant
        return None

    def __str__(self):
        s = LpAffineExpression.__str__(self, 0)
        if self.sense is not None:
            s += " " + const.LpConstraintSenses[self.sense] + " " + str(-self.constant)
        return s

    def __repr__(self):
        return self.__str__()

    def changeRHS(self, RHS):
        self.constant = -RHS
        self.modified = True

    def copy(self):
        return LpConstraint(self, self.sense)

    def emptyCopy(self):
        return LpConstraint(sense=self.sense)

    def valid(self, eps=0):
        val = self.value()
        if self.sense == const.LpConstraintEQ:
            return abs(val) <= eps
        return val * self.sense >= -1 * eps

    def __neg__(self):
        c = LpAffineExpression.__neg__(self)
        return LpConstraint(c, -self.sense)

    def __bool__(self):
        return LpAffineExpression.__bool__(self)

    def __le__(self, other):
        if isinstance(other, LpConstraint):
            return LpConstraint(LpAffineExpression(self) - other, const.LpConstraintLE)
        return LpConstraint(self - other, const.LpConstraintLE)

    def __add__(self, other):
        c = LpConstraint(self, self.sense)
        c.addInPlace(other)
        return c

    def __sub__(self, other):
        c = LpConstraint(self, self.sense)
        c.subInPlace(other)
        return c

    def __mul__(self, other):
        c = LpConstraint(LpAffineExpression(self) * other, self.sense)
        return c


class LpProblem(object):
    def __init__(self, name="NoName", sense=const.LpMinimize):
        if " " in name:
            warnings.warn("Spaces are not permitted in the name. Converted to '_'")
            name = name.replace(" ", "_")
        self.objective = None
        self.constraints = OrderedDict()
        self.name = name
        self.sense = sense
        self.sos1 = {}
        self.sos2 = {}
        self.status = const.LpStatusNotSolved
        self.sol_status = const.LpSolutionNoSolutionFound
        self.noOverlap = 1
        self.solver = None
        self.modifiedVariables = []
        self.modifiedConstraints = []
        self.resolveOK = False
        self._variables = []
        self._variable_ids = {}
        self.dummyVar = None
        self.solutionTime = 0
        self.solutionCpuTime = 0
        self.lastUnused = 0

    def __repr__(self):
        s = self.name + ":\n"
        s += "MINIMIZE\n" if self.sense == 1 else "MAXIMIZE\n"
        s += repr(self.objective) + "\n"
        if self.constraints:
            s += "SUBJECT TO\n"
            for n, c in self.constraints.items():
                s += str(n) + ": " + str(c) + "\n"
        s += "VARIABLES\n"
        for v in self.variables():
            s += v.name + "\n"
        return s

    def add(self, constraint, name=None):
        self.addConstraint(constraint, name)

    def addVariable(self, variable):
        if variable.hash not in self._variable_ids:
            self._variables.append(variable)
            self._variable_ids[variable.hash] = variable

    def addVariables(self, variables):
        for v in variables:
            self.addVariable(v)

    def variables(self):
        if self.objective:
            self.addVariables(list(self.objective.keys()))
        for c in self.constraints.values():
            self.addVariables(list(c.keys()))
        self._variables.sort(key=lambda v: v.name)
        return self._variables

    def variablesDict(self):
        variables = {}
        if self.objective:
            for v in self.objective:
                variables[v.name] = v
        for c in self.constraints.values():
            for v in c:
                variables[v.name] = v
        return variables

    def unusedConstraintName(self):
        self.lastUnused += 1
        while 1:
            s = "_C%d" % self.lastUnused
            if s not in self.constraints:
                break
            self.lastUnused += 1
        return s

    def checkDuplicateVars(self):
        name_counter = {}
        for variable in self.variables():
            name_counter[variable.name] = name_counter.get(variable.name, 0) + 1
        repeated_names = {(n, c) for n, c in name_counter.items() if c >= 2}
        if repeated_names:
            raise const.PulpError("Repeated variable names: {}".format(repeated_names))

    def valid(self, eps=0):
        for v in self.variables():
            if v.varValue is None:
                return False
        for c in self.constraints.values():
            if not c.valid(eps):
                return False
        return True

    def setObjective(self, obj):
        if isinstance(obj, LpVariable):
            obj = obj + 0.0
        try:
            obj = obj.constraint
            name = obj.name
        except AttributeError:
            name = None
        self.objective = obj
        self.objective.name = name
        self.resolveOK = False

    def addConstraint(self, constraint, name=None):
        if not isinstance(constraint, LpConstraint):
            raise TypeError("Can only add LpConstraint objects")
        if name:
            constraint.name = name
        try:
            if constraint.name:
                name = constraint.name
            else:
                name = self.unusedConstraintName()
        except AttributeError:
            raise TypeError("Can only add LpConstraint objects")
        if len(constraint) == 0:
            if not constraint.valid():
                raise ValueError("Cannot add false constraints")
        if name in self.constraints:
            if self.noOverlap:
                raise const.PulpError("overlapping constraint names: " + name)
            else:
                print("Warning: overlapping constraint names:", name)
        self.constraints[name] = constraint
        self.modifiedConstraints.append(constraint)
        self.addVariables(list(constraint.keys()))

    def __iadd__(self, other):
        if isinstance(other, tuple):
            other, name = other
        else:
            name = None
        if other is True:
            return self
        elif other is False:
            raise TypeError("A False object cannot be passed as a constraint")
        elif isinstance(other, LpConstraint):
            self.addConstraint(other, name)
        elif isinstance(other, LpAffineExpression):
            if self.objective is not None:
                warnings.warn("Overwriting previously set objective.")
            self.objective = other
            if name is not None:
                self.objective.name = name
        elif isinstance(other, LpVariable) or _is_number(other):
            if self.objective is not None:
                warnings.warn("Overwriting previously set objective.")
            self.objective = LpAffineExpression(other)
            self.objective.name = name
        else:
            raise TypeError("Can only add LpConstraintVar, LpConstraint, LpAffineExpression or True objects")
        return self

    def extend(self, other, use_objective=True):
        if isinstance(other, dict):
            for name in other:
                self.constraints[name] = other[name]
        elif isinstance(other, LpProblem):
            for n, c in other.constraints.items():
                c.name = n
                self.addConstraint(c)
            if use_objective:
                self.objective += other.objective
        else:
            for c in other:
                if isinstance(c, tuple):
                    name, c = c
                else:
                    name = None
                if not name:
                    name = c.name
                if not name:
                    name = self.unusedConstraintName()
                self.constraints[name] = c

    def coefficients(self, translation=None):
        coefs = []
        for n, c in self.constraints.items():
            for v, x in c.items():
                coefs.append((v.name if translation is None else translation[v.name], n, x))
        return coefs

    def assignVarsVals(self, values):
        variables = self.variablesDict()
        for name in values:
            if name != "__dummy":
                variables[name].varValue = values[name]

    def assignStatus(self, status, sol_status=None):
        self.status = status
        self.sol_status = status if sol_status is None else sol_status
        return True

    def numVariables(self):
        return len(self._variable_ids)

    def numConstraints(self):
        return len(self.constraints)

    def getSense(self):
        return self.sense

    def roundSolution(self, epsInt=1e-5, eps=1e-7):
        for v in self.variables():
            v.round(epsInt, eps)

    def copy(self):
        lpcopy = LpProblem(name=self.name, sense=self.sense)
        lpcopy.objective = self.objective
        lpcopy.constraints = self.constraints.copy()
        return lpcopy

    def deepcopy(self):
        lpcopy = LpProblem(name=self.name, sense=self.sense)
        if self.objective is not None:
            lpcopy.objective = self.objective.copy()
        lpcopy.constraints = OrderedDict((k, v.copy()) for k, v in self.constraints.items())
        return lpcopy

    def solve(self, solver=None, **kwargs):
        self.checkDuplicateVars()
        if not solver:
            solver = self.solver
        if not solver:
            solver = PULP_CBC_CMD()
        status = solver.actualSolve(self, **kwargs)
        self.solver = solver
        return status


def lpSum(vector):
    return LpAffineExpression().addInPlace(vector)


def lpDot(v1, v2):
    if not isiterable(v1) and not isiterable(v2):
        return v1 * v2
    elif not isiterable(v1):
        return lpDot([v1] * len(v2), v2)
    elif not isiterable(v2):
        return lpDot(v1, [v2] * len(v1))
    return lpSum([lpDot(e1, e2) for e1, e2 in zip(v1, v2)])


def value(x):
    if _is_number(x):
        return x
    return x.value()


def valueOrDefault(x):
    if _is_number(x):
        return x
    return x.valueOrDefault()


# --------------------------------------------------------------------------
# solving: HiGHS in a separate interpreter (SHIM_MILP_PYTHON), or values
# injected by the harness through SHIM_SOLVER_HOOK.

SHIM_SOLVER_HOOK = None


class LpSolver(object):
    name = "LpSolver"

    def __init__(self, mip=True, msg=True, options=None, timeLimit=None, *args, **kwargs):
        self.mip, self.msg, self.options, self.timeLimit = mip, msg, options or [], timeLimit
        self.kwargs = kwargs

    def available(self):
        return True

    def solve(self, lp):
        return lp.solve(self)

    def actualSolve(self, lp, **kwargs):
        if SHIM_SOLVER_HOOK is not None:
            return SHIM_SOLVER_HOOK(lp)
        return _highs(lp)


class PULP_CBC_CMD(LpSolver):
    name = "PULP_CBC_CMD"


class COIN_CMD(LpSolver):
    name = "COIN_CMD"


class GLPK_CMD(LpSolver):
    name = "GLPK_CMD"


class CPLEX_CMD(LpSolver):
    name = "CPLEX_CMD"

    def __init__(self, path=None, *args, **kwargs):
        LpSolver.__init__(self, *args, **kwargs)
        self.path = path


class GUROBI_CMD(LpSolver):
    name = "GUROBI_CMD"


class HiGHS_CMD(LpSolver):
    name = "HiGHS_CMD"


_all_solvers = [PULP_CBC_CMD, COIN_CMD, GLPK_CMD, CPLEX_CMD, GUROBI_CMD, HiGHS_CMD]


def listSolvers(onlyAvailable=False):
    return [s.name for s in _all_solvers]


def getSolver(solver, *args, **kwargs):
    mapping = {k.name: k for k in _all_solvers}
    try:
        return mapping[solver](*args, **kwargs)
    except KeyError:
        raise const.PulpError("The solver {} does not exist in PuLP.".format(solver))


_HIGHS_SCRIPT = r"""
import sys, json, numpy as np
from scipy.optimize import milp, LinearConstraint, Bounds
from scipy.sparse import csr_matrix
d = json.load(open(sys.argv[1]))
n = len(d['vars'])
inf = np.inf
lb = np.array([-inf if v[1] is None else v[1] for v in d['vars']], float)
ub = np.array([inf if v[2] is None else v[2] for v in d['vars']], float)
it = np.array([1 if v[3] else 0 for v in d['vars']])
c = np.zeros(n)
for i, x in d['obj']: c[i] += x
r, k, x, lo, hi = [], [], [], [], []
for q, (terms, sense, rhs) in enumerate(d['cons']):
    for i, a in terms:
        r.append(q); k.append(i); x.append(a)
    lo.append(rhs if sense >= 0 else -inf); hi.append(rhs if sense <= 0 else inf)
cons = []
if d['cons']:
    cons = [LinearConstraint(csr_matrix((x, (r, k)), shape=(len(lo), n)), lo, hi)]
res = milp(c, constraints=cons, bounds=Bounds(lb, ub), integrality=it,
           options={'time_limit': float(d.get('time_limit', 120)), 'mip_rel_gap': 0.0})
if res.x is not None and d.get('lex'):
    from copy import copy
    x2 = [LinearConstraint(csr_matrix(c.reshape(1, -1)), -inf, float(res.fun) + 1e-9)]
    r2 = milp(np.where(it > 0, 1.0, 1.0) * (ub > 1), constraints=cons + x2, bounds=Bounds(lb, ub), integrality=it,
              options={'time_limit': float(d.get('time_limit', 120))})
    if r2.x is not None:
        res = r2
out = {'status': int(res.status), 'x': None if res.x is None else [float(v) for v in res.x],
       'message': str(res.message)}
json.dump(out, open(sys.argv[2], 'w'))
"""


def _highs(lp):
    vs = lp.variables()
    idx = {v.hash: i for i, v in enumerate(vs)}
    d = {
        "vars": [[v.name, None if v.lowBound is None else float(v.lowBound),
                  None if v.upBound is None else float(v.upBound), v.cat == const.LpInteger] for v in vs],
        "obj": [[idx[v.hash], float(x) * (1 if lp.sense == const.LpMinimize else -1)]
                for v, x in (lp.objective or {}).items()],
        "cons": [[[[idx[v.hash], float(x)] for v, x in c.items()], c.sense, -float(c.constant)]
                 for c in lp.constraints.values()],
        "lex": os.environ.get("SHIM_MILP_LEX", "") == "1",
        "time_limit": float(os.environ.get("SHIM_MILP_TIME", "120")),
    }
    tmp = tempfile.mkdtemp(prefix="shimlp")
    a, b = os.path.join(tmp, "in.json"), os.path.join(tmp, "out.json")
    try:
        with open(a, "w") as f:
            json.dump(d, f)
        py = os.environ.get("SHIM_MILP_PYTHON", "python3-vt")
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
        subprocess.run([py, "-c", _HIGHS_SCRIPT, a, b], check=True, env=env)
        with open(b) as f:
            out = json.load(f)
    finally:
        for p in (a, b):
            if os.path.exists(p):
                os.remove(p)
        os.rmdir(tmp)
    if out["x"] is not None:
        for v, x in zip(vs, out["x"]):
            v.varValue = float(round(x)) if v.cat == const.LpInteger else float(x)
    status = {0: const.LpStatusOptimal, 1: const.LpStatusNotSolved, 2: const.LpStatusInfeasible,
              3: const.LpStatusUnbounded}.get(out["status"], const.LpStatusUndefined)
    lp.assignStatus(status)
    return status


import _lacking  # noqa: E402
_VAR = """asCplexLpVariable asCplexLpAffineExpression toDict to_dict fromDict from_dict infeasibilityGap valid addVariableToConstraints
          isFixed"""
_EXP = "isAtom asCplexLpAffineExpression asCplexVariablesOnly"
_lacking.module(globals(), "LpConstraintVar valueOrNone makeDict combination allcombinations permutation allpermutations splitDict read_table list_solvers getSolverFromDict getSolverFromJson isNumber CPLEX_PY GUROBI SCIP_CMD MOSEK XPRESS PulpSolverError LpFractionConstraint FixedElasticSubProblem apis utilities operators sparse")
_lacking.cls(LpVariable, _VAR)
_lacking.cls(LpAffineExpression, _EXP)
_lacking.cls(LpConstraint, _EXP + " asCplexLpConstraint makeElasticSubProblem")
_lacking.cls(LpProblem, """addInSOS to_dict toDict from_dict fromDict to_json toJson writeLP writeMPS checkLengthVars isMIP infeasibilityGap
                           resolve sequentialSolve setSolver startClock stopClock fixObjective restoreObjective assignVarsDj
                           assignConsPi assignConsSlack get_dummyVar normalisedNames""")
