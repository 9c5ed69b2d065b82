"""Offline stand-in for PuLP 2.5 (modelling layer), see /verif/DESIGN.md."""
from .constants import *  # noqa
from . import constants
from .pulp import *  # noqa
from . import pulp as pulp_module
from .pulp import (LpElement, LpVariable, LpAffineExpression, LpConstraint, LpProblem, lpSum, lpDot,
                   value, valueOrDefault, getSolver, listSolvers, LpSolver, PULP_CBC_CMD, COIN_CMD,
                   GLPK_CMD, CPLEX_CMD, GUROBI_CMD, HiGHS_CMD)

__version__ = VERSION = "2.5.1"

import _lacking  # noqa: E402
_lacking.module(globals(), "LpConstraintVar valueOrNone makeDict combination allcombinations permutation allpermutations splitDict read_table list_solvers getSolverFromDict getSolverFromJson isNumber CPLEX_PY GUROBI SCIP_CMD MOSEK XPRESS PulpSolverError LpFractionConstraint FixedElasticSubProblem apis utilities operators sparse")
