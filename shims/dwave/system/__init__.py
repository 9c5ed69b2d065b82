"""Offline stand-in for the D-Wave samplers: no hardware; answers come from the
harness (SHIM_*_HOOK) or from simulated annealing."""
import dimod
import neal

SHIM_BQM_HOOK = None
SHIM_CQM_HOOK = None
SHIM_TOKEN = None
CALLS = []


def _info(who):
    info = {"solver": who}
    if SHIM_TOKEN is not None:
        info["token"] = SHIM_TOKEN
    return info


def _solve_bqm(bqm, who, kw):
    CALLS.append((who, dict(kw), bqm))
    if SHIM_BQM_HOOK is not None:
        rows = SHIM_BQM_HOOK(bqm)
        return dimod.SampleSet.from_samples(rows, bqm.vartype, [bqm.energy(r) for r in rows], info=_info(who))
    s = neal.SimulatedAnnealingSampler().sample(bqm, beta_range=(0.01, 10), num_sweeps=50, num_reads=5)
    s.info.update(_info(who))
    return s


class DWaveSampler(object):
    def __init__(self, *a, **kw):
        self.properties = {}
        self.parameters = {}

    def sample(self, bqm, **kw):
        return _solve_bqm(bqm, "DWaveSampler", kw)


class EmbeddingComposite(object):
    def __init__(self, child_sampler, *a, **kw):
        self.child = child_sampler
        self.properties = {"child_properties": {}}

    def sample(self, bqm, chain_strength=None, chain_break_method=None, chain_break_fraction=True,
               embedding_parameters=None, return_embedding=None, warnings=None, **parameters):
        return self.child.sample(bqm, chain_strength=chain_strength, **parameters)


SHIM_FLOOR = 3.0     # least time limit of small problems (seconds)


class LeapHybridSampler(object):
    """time_limit defaults to the minimum for the number of variables, read from
    properties["minimum_time_limit"], a list of points to interpolate between"""

    def __init__(self, *a, **kw):
        self.properties = {"minimum_time_limit": [[1, SHIM_FLOOR], [1024, SHIM_FLOOR], [4096, 10.0], [10000, 40.0], [30000, 200.0], [1000000, 600.0]]}
        self.parameters = {"time_limit": None}

    def min_time_limit(self, bqm):
        pts = self.properties["minimum_time_limit"]
        n = len(bqm.variables)
        for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
            if n <= x1:
                return max(y0, y0 + (y1 - y0) * (n - x0) / float(x1 - x0))
        return pts[-1][1]

    def sample(self, bqm, time_limit=None, **kw):
        if time_limit is None:
            time_limit = self.min_time_limit(bqm)
        if time_limit < self.min_time_limit(bqm):
            raise ValueError("time limit for problem size must be at least %r" % self.min_time_limit(bqm))
        return _solve_bqm(bqm, "LeapHybridSampler", dict(kw, time_limit=time_limit))


class LeapHybridCQMSampler(object):
    """time_limit defaults to properties["minimum_time_limit_s"] (small problems)"""

    def __init__(self, *a, **kw):
        self.properties = {"minimum_time_limit_s": 5}
        self.parameters = {"time_limit": None}

    def min_time_limit(self, cqm):
        return self.properties["minimum_time_limit_s"]

    def sample_cqm(self, cqm, time_limit=None, **kw):
        if time_limit is None:
            time_limit = self.min_time_limit(cqm)
        if time_limit < self.min_time_limit(cqm):
            raise ValueError("the minimum time limit for this problem is %r seconds" % self.min_time_limit(cqm))
        CALLS.append(("LeapHybridCQMSampler", dict(kw, time_limit=time_limit), cqm))
        if SHIM_CQM_HOOK is not None:
            rows = SHIM_CQM_HOOK(cqm)
        else:
            rows = [{v: cqm.lower_bound(v) for v in cqm.variables}]
        return dimod.SampleSet.from_samples_cqm(rows, cqm, info=_info("LeapHybridCQMSampler"))


import _lacking  # noqa: E402
_lacking.module(globals(), """LeapHybridBQMSampler LeapHybridDQMSampler LeapHybridNLSampler FixedEmbeddingComposite LazyFixedEmbeddingComposite
    AutoEmbeddingComposite DWaveCliqueSampler VirtualGraphComposite TilingComposite CutOffComposite""")
