"""C05: cyclic renumbering of the final state."""

import numpy as np
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder
from vf import gens, models
from vf.harness import Sub, check, under_test
from vf.interp import close

SHIFT = {0: 0, 1: 2, 2: 3, 3: 1}


@st.composite
def cases(draw):
    basis = draw(gens.bases())
    return {
        "decay": draw(gens.decay_cases(
            max_helicities=24,
            need_ls=None if all(basis) else True,
            force_all_subsystems=draw(st.booleans()),
        )),
        "kin": draw(gens.kinematics(max_size=2)),
        "basis": basis,
        "salt": draw(gens.salts()),
        "reference": draw(st.sampled_from([None, 1, 2, 3])),
        "turns": draw(st.sampled_from([1, 2])),
        "cleanup": draw(st.booleans()),
    }


def renumber(case, turns):
    shift = {i: i for i in range(4)}
    for _ in range(turns):
        shift = {i: SHIFT[j] for i, j in shift.items()}
    old = case["decay"]
    spins = [0] * 4
    masses = [0.0] * 4
    for i in range(4):
        spins[shift[i]] = old["spins"][i]
        masses[shift[i]] = case["kin"]["masses"][i]
    decay = {**old, "spins": spins, "chains": [{**c, "k": shift[c["k"]]} for c in old["chains"]]}
    kin = {**case["kin"], "masses": masses, "pair": shift[case["kin"]["pair"]]}
    ref = case["reference"]
    return {**case, "decay": decay, "kin": kin, "reference": None if ref is None else shift[ref]}


def value(case):
    kin = gens.build_kinematics(case["kin"])
    decay = gens.build_decay(case["decay"], case["kin"]["masses"])
    with under_test("formulate"):
        model = DalitzPlotDecompositionBuilder(decay, min_ls=tuple(case["basis"])).formulate(
            case["reference"], cleanup_summations=case["cleanup"]
        )
    return models.intensity(model, kin, case["salt"])


def body(case, ctx):
    chains = case["decay"]["chains"]
    subsystems = {c["k"] for c in chains}
    if case["reference"] is None:
        # the choice between equally good references is free
        counts = sorted(sum(c["k"] == k for c in chains) for k in subsystems)
        if len(counts) > 1 and counts[-1] == counts[-2]:
            case = {**case, "reference": chains[0]["k"]}
    a = value(case)
    b = value(renumber(case, case["turns"]))
    check(close(a, b), lambda: f"intensity is {a}, but {b} after {case['turns']} renumberings")
    spins = case["decay"]["spins"]
    return {
        "nontrivial": max(spins) > 0 and bool(np.any(a > 1e-6)),
        "subsystems": len(subsystems),
        "J0": spins[0] / 2,
        "spinning final states": sum(s > 0 for s in spins[1:]),
        "basis": "".join("h" if b else "l" for b in case["basis"]),
    }


SUBS = [
    Sub("cyclic", cases, body, 700, 20000, "a state with spin, non-zero intensity", min_nontrivial=0.5),
]
