"""C09: coherent sum over chains."""

import warnings

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder
from vf import gens, models, phys
from vf.harness import Sub, check, under_test
from vf.interp import Evaluator, close


@st.composite
def cases(draw):
    basis = draw(gens.bases())
    decay = draw(gens.decay_cases(
        max_helicities=16,
        max_resonances=4,
        max_chains_per_resonance=3,
        need_ls=None if all(basis) else True,
        allow_shared_names=False,
    ))
    n = len(decay["chains"])
    return {
        "decay": decay,
        "kin": draw(gens.kinematics(max_size=1)),
        "basis": basis,
        "salt": draw(gens.salts()),
        "reference": draw(st.sampled_from([1, 2, 3])),
        "split": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "order": draw(st.permutations(list(range(n)))),
        "scaled": draw(st.integers(0, n - 1)),
        "scale": draw(st.sampled_from([[0, 0], [2, 0], [-1, 0], [0, 1], [0.5, -0.75]])),
        "coefficients": draw(st.booleans()),
    }


class Model:
    def __init__(self, case, chains) -> None:
        self.case = case
        self.kin = gens.build_kinematics(case["kin"])
        decay = gens.build_decay(case["decay"], case["kin"]["masses"], chains)
        builder = DalitzPlotDecompositionBuilder(decay, min_ls=tuple(case["basis"]))
        self.symbols = sp.symbols("x:4", rational=True)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with under_test("formulate"):
                self.model = builder.formulate(case["reference"], use_coefficients=case["coefficients"])
                self.aligned, self.zetas = builder.formulate_aligned_amplitude(
                    *self.symbols, case["reference"]
                )

    def values(self, factors=None):
        couplings = {}
        for s in self.model.parameter_defaults:
            if not models.is_coupling(s):
                continue
            if self.case["coefficients"]:
                key = (str(s.base.label), *map(str, s.indices))
                latex = models.owner(s, map(gens.resonance_latex, self.case["decay"]["chains"]))
                scaled = [f for n, f in (factors or {}).items() if n == latex]
            else:
                key = models.parse_coupling(s)
                scaled = [f for n, f in (factors or {}).items() if key[0] == "production" and key[2] == n]
            couplings[s] = gens.coupling_value(self.case["salt"], *key) * (scaled[0] if scaled else 1)
        return models.model_values(self.model, self.kin, None, couplings)

    def amplitudes(self, factors=None):
        ev = Evaluator(self.values(factors), {**self.model.amplitudes, **self.model.variables, **self.zetas})
        return np.array([
            np.broadcast_to(ev(self.aligned, dict(zip(self.symbols, map(gens.half, hel)))), self.kin.sigma[1].shape)
            for hel in phys.helicity_combinations(self.case["decay"]["spins"])
        ])

    def intensity(self, factors=None):
        ev = Evaluator(self.values(factors), {**self.model.amplitudes, **self.model.variables})
        return ev(self.model.intensity)


def body(case, ctx):
    chains = case["decay"]["chains"]
    full = Model(case, chains)
    total = full.amplitudes()
    # any split of the chains
    parts = [[c for c, s in zip(chains, case["split"]) if s is side] for side in (True, False)]
    parts = [p for p in parts if p]
    summed = sum(Model(case, p).amplitudes() for p in parts)
    check(close(total, summed), lambda: f"amplitudes {total} are not the sum of those of {len(parts)} parts {summed}")
    # order
    permuted = Model(case, [chains[n] for n in case["order"]])
    check(close(total, permuted.amplitudes()), "amplitudes depend on the order of the chains")
    check(close(full.intensity(), permuted.intensity()), "intensity depends on the order of the chains")
    check(
        close(full.intensity(), np.sum(np.abs(total) ** 2, axis=0)),
        "intensity is not the sum of the squared aligned amplitudes",
    )
    # linearity in the couplings of a resonance
    chosen = chains[case["scaled"]]["res"]
    latex = gens.resonance_latex(chains[case["scaled"]])
    own = [c for c in chains if c["res"] == chosen]
    others = [c for c in chains if c["res"] != chosen]
    f = complex(*case["scale"])
    scaled = full.amplitudes({latex: f})
    expected = f * Model(case, own).amplitudes()
    if others:
        rest = Model(case, others)
        expected = expected + rest.amplitudes()
    check(close(scaled, expected), lambda: f"amplitudes are not linear in the couplings of {latex}: {scaled}, {expected}")
    if f == 0 and others:
        check(
            close(full.intensity({latex: 0}), rest.intensity()),
            f"the intensity without couplings of {latex} is not that of the decay without it",
        )
    return {
        "nontrivial": len(chains) > 1 and bool(np.any(np.abs(total) > 1e-6)),
        "chains": len(chains),
        "parts": len(parts),
        "order changed": case["order"] != sorted(case["order"]),
        "subsystems": len({c["k"] for c in chains}),
        "basis": "".join("h" if b else "l" for b in case["basis"]),
        "several resonances in a subsystem": len({c["res"] for c in chains}) > len({c["k"] for c in chains}),
    }


SUBS = [
    Sub("coherent_sum", cases, body, 320, 9000, "at least two chains, amplitudes do not vanish", min_nontrivial=0.4),
]
