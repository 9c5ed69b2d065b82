from ._model import ConstrainedQuadraticModel, CQM, cqm_to_bqm, Comparison, Sense  # noqa
