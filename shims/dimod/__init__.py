"""Offline stand-in for dimod 0.12 (models and sample sets), see /verif/DESIGN.md."""
from ._model import *  # noqa
from ._model import (Vartype, SPIN, BINARY, INTEGER, REAL, Sense, Comparison, Le, Ge, Eq, QuadraticModel,
                     BinaryQuadraticModel, BQM, QM, Binary, Spin, Integer, Binaries, Integers, quicksum,
                     ConstrainedQuadraticModel, CQM, cqm_to_bqm, as_vartype, binary_encoding)
from ._samples import as_samples, SampleSet, SampleView, concatenate
from . import sampleset, constrained, generators

__version__ = "0.12.3"

import _lacking  # noqa: E402
_lacking.module(globals(), """DiscreteQuadraticModel DQM Real Reals Binarys BinaryArray IntegerArray RealArray ExactSolver ExactCQMSolver
    ExactPolySolver Sampler ComposedSampler lp append_variables ising_energy qubo_energy to_networkx_graph binary sym vartypes
    drop_variables keep_variables append_data_vectors SimulatedAnnealingSampler RandomSampler IdentitySampler NullSampler
    TruncateComposite BinaryPolynomial make_quadratic reference""")
