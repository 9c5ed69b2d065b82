"""Offline stand-in for dwave-neal: plain simulated annealing."""
import math
import os
import random

import dimod

SHIM_SAMPLE_HOOK = None
SHIM_TOKEN = None
CALLS = []


class SimulatedAnnealingSampler(object):
    parameters = {}
    properties = {"beta_schedule_options": ("linear", "geometric")}

    def sample(self, bqm, beta_range=None, num_reads=None, num_sweeps=None, num_sweeps_per_beta=1,
               beta_schedule_type="geometric", seed=None, interrupt_function=None, beta_schedule=None,
               initial_states=None, initial_states_generator="random", randomize_order=False,
               proposal_acceptance_criteria="Metropolis", **kw):
        num_reads = 1 if num_reads is None else num_reads
        num_sweeps = 1000 if num_sweeps is None else num_sweeps
        CALLS.append(("neal", dict(kw, beta_range=beta_range, num_reads=num_reads, num_sweeps=num_sweeps,
                                   beta_schedule_type=beta_schedule_type), bqm))
        info = {"beta_range": beta_range, "beta_schedule_type": beta_schedule_type}
        if SHIM_TOKEN is not None:
            info["token"] = SHIM_TOKEN
        if SHIM_SAMPLE_HOOK is not None:
            rows = SHIM_SAMPLE_HOOK(bqm)
            return dimod.SampleSet.from_samples(rows, bqm.vartype, [bqm.energy(r) for r in rows], info=info)
        rnd = random.Random(int(os.environ.get("SHIM_SEED", "1")) if seed is None else seed)
        vs = list(bqm.variables)
        idx = {v: i for i, v in enumerate(vs)}
        h = [float(bqm.linear[v]) for v in vs]
        nb = [[] for _ in vs]
        for (u, v), b in bqm.quadratic.items():
            nb[idx[u]].append((idx[v], float(b)))
            nb[idx[v]].append((idx[u], float(b)))
        lo, hi = beta_range if beta_range else (0.1, 10)
        n = max(int(num_sweeps), 1)
        betas = [lo * (hi / lo) ** (k / max(n - 1, 1)) for k in range(n)]
        rows = []
        for _ in range(num_reads):
            x = [rnd.randint(0, 1) for _ in vs]
            f = [h[i] + sum(b for j, b in nb[i] if x[j]) for i in range(len(vs))]
            for be in betas:
                for i in range(len(vs)):
                    de = f[i] if x[i] == 0 else -f[i]
                    if de <= 0 or rnd.random() < math.exp(-min(be * de, 700)):
                        s = 1 if x[i] == 0 else -1
                        x[i] ^= 1
                        for j, b in nb[i]:
                            f[j] += s * b
            rows.append(dict(zip(vs, x)))
        return dimod.SampleSet.from_samples(rows, bqm.vartype, [bqm.energy(r) for r in rows], info=info)
