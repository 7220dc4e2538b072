"""C04: the intensity does not depend on the reference subsystem."""

import warnings

import numpy as np
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder
from vf import gens, models
from vf.harness import Sub, check, under_test
from vf.interp import close


@st.composite
def cases(draw, all_three=False):
    basis = draw(gens.bases())
    return {
        "decay": draw(gens.decay_cases(
            max_helicities=24,
            need_ls=None if all(basis) else True,
            force_all_subsystems=all_three,
            allow_shared_names=False,
        )),
        "kin": draw(gens.kinematics(min_size=2, max_size=3)),
        "basis": basis,
        "salt": draw(gens.salts()),
        "all_subsystems": draw(st.booleans()),
    }


def flipped(model, case, subsystem):
    """Couplings with opposite sign for the resonances of one subsystem."""
    latex = {gens.resonance_latex(c) for c in case["decay"]["chains"] if c["k"] == subsystem}
    out = {}
    for symbol, value in models.couplings_of(model, case["salt"]).items():
        parsed = models.parse_coupling(symbol)
        if parsed[0] == "production" and parsed[2] in latex:
            out[symbol] = -value
    return out


def reference_warnings(record):
    messages = [str(w.message) for w in record if issubclass(w.category, UserWarning)]
    return [m for m in messages if "reference" in m.lower()]


def body(case, ctx):
    kin = gens.build_kinematics(case["kin"])
    decay = gens.build_decay(case["decay"], case["kin"]["masses"])
    spins = case["decay"]["spins"]
    subsystems = sorted({c["k"] for c in case["decay"]["chains"]})
    values = {}
    formulated = {}
    for ref in (1, 2, 3):
        builder = DalitzPlotDecompositionBuilder(
            decay, min_ls=tuple(case["basis"]), all_subsystems=case["all_subsystems"]
        )
        with warnings.catch_warnings(record=True) as record:
            warnings.simplefilter("always")
            with under_test(f"formulate with reference {ref}"):
                formulated[ref] = builder.formulate(ref)
        messages = reference_warnings(record)
        if ref not in subsystems:
            check(messages, f"no warning about reference {ref} for subsystems {subsystems}")
        else:
            check(not messages, f"reference {ref} gives the warning {messages}")
        values[ref] = models.intensity(formulated[ref], kin, case["salt"])
    n_flips = 0
    base = subsystems[0]
    for ref in (1, 2, 3):
        if close(values[ref], values[base]):
            continue
        options = {}
        # 2*pi rotations show up if three subsystems are involved, with the references
        if spins[0] % 2 == 1 and len({*subsystems, ref, base}) == 3:
            for s in subsystems:
                options[s] = models.intensity(
                    formulated[ref], kin, case["salt"], flipped(formulated[ref], case, s)
                )
        n_flips += 1
        check(
            any(close(v, values[base]) for v in options.values()),
            lambda: f"intensity with reference {ref} is {values[ref]}, but with {base} it is {values[base]}",
        )
    # default reference
    counts = {k: sum(c["k"] == k for c in case["decay"]["chains"]) for k in subsystems}
    best = [k for k in subsystems if counts[k] == max(counts.values())]
    with warnings.catch_warnings(record=True) as record:
        warnings.simplefilter("always")
        with under_test("formulate without reference"):
            default = DalitzPlotDecompositionBuilder(
                decay, min_ls=tuple(case["basis"]), all_subsystems=case["all_subsystems"]
            ).formulate()
    messages = reference_warnings(record)
    check(not messages, f"formulating without reference gives the warning {messages}")
    check(
        any(set(default.variables) == set(formulated[k].variables) for k in best),
        lambda: f"the default reference has angles {set(default.variables)} and is none of {best}",
    )
    value = models.intensity(default, kin, case["salt"])
    check(
        any(close(value, values[k]) for k in best),
        lambda: f"intensity with default reference is {value}, but with {best} it is {[values[k] for k in best]}",
    )
    return {
        "nontrivial": max(spins) > 0 and len(subsystems) > 1 and bool(np.any(values[base] > 1e-6)),
        "subsystems": len(subsystems),
        "J0": spins[0] / 2,
        "spinning final states": sum(s > 0 for s in spins[1:]),
        "sign flip": n_flips > 0,
        "tie": len(best) > 1,
    }


RULE = "states with spin and resonances in at least two subsystems, non-zero intensity"
SUBS = [
    Sub("any", cases, body, 240, 6000, RULE, min_nontrivial=0.3),
    Sub("three", lambda: cases(True), body, 240, 6000, RULE, min_nontrivial=0.6),
]
