"""C07: formulation options change the form but not the physics."""

import warnings

import numpy as np
import sympy as sp
from ampform.sympy import PoolSum
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder
from vf import gens, models, phys
from vf.harness import Sub, Violation, check, under_test
from vf.interp import close, two


OPTIONS = [
    [bool(n & 1), bool(n & 2), bool(n & 4)] for n in range(1, 8)
]


@st.composite
def cases(draw):
    basis = draw(gens.bases())
    return {
        "decay": draw(gens.decay_cases(
            max_helicities=16,
            need_ls=None if all(basis) else True,
            force_all_subsystems=draw(st.integers(0, 3)) == 3,
        )),
        "kin": draw(gens.kinematics(max_size=2)),
        "basis": basis,
        "salt": draw(gens.salts()),
        "reference": draw(st.sampled_from([None, 1, 2, 3])),
        **dict(zip(
            ("all_subsystems", "cleanup", "coefficients"),
            draw(st.sampled_from(OPTIONS)),
        )),
        "dynamics": draw(st.booleans()),
    }


def coefficient_key(symbol, case):
    """(resonance, production indices, decay indices) of a coefficient."""
    latex = models.owner(symbol, map(gens.resonance_latex, case["decay"]["chains"]))
    if len(symbol.indices) != 4:
        raise Violation(f"{symbol} does not have the indices of both vertices")
    prod = _indices(symbol.indices[:2], case["basis"][0])
    dec = _indices(symbol.indices[2:], case["basis"][1])
    return latex, prod, dec


def _indices(values, helicity_basis):
    a, b = values
    return (two(a), two(b)) if helicity_basis else (int(a), two(b))


def expected_keys(case):
    """Combinations that have to occur, and that may occur."""
    spins = case["decay"]["spins"]
    must, may = set(), set()
    for c in case["decay"]["chains"]:
        i, j = gens.PAIR[c["k"]]
        for hel in phys.helicity_combinations(spins):
            tR = hel[0] + hel[c["k"]]
            if abs(tR) > c["tJ"]:
                continue
            prod = (tR, hel[c["k"]]) if case["basis"][0] else tuple(c["prod"])
            dec = (hel[i], hel[j]) if case["basis"][1] else tuple(c["dec"])
            key = (gens.resonance_latex(c), prod, dec)
            may.add(key)
            if abs(hel[i] - hel[j]) <= c["tJ"]:
                must.add(key)
    return must, may


def pool_sums(expr):
    return [e for e in sp.preorder_traversal(expr) if isinstance(e, PoolSum)]


def dynamics(chain):
    from ampform_dpd import DefinedExpression

    x = sp.Symbol(f"x_{{{chain.resonance.latex}}}")
    s = sp.Symbol(f"sigma{chain.spectator.index}", nonnegative=True)
    return DefinedExpression(x / (s + 1), {x: 0.5 + 0.25j})


def formulate(case, all_subsystems=False, cleanup=False, coefficients=False):
    decay = gens.build_decay(case["decay"], case["kin"]["masses"])
    builder = DalitzPlotDecompositionBuilder(
        decay, min_ls=tuple(case["basis"]), all_subsystems=all_subsystems
    )
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with under_test("formulate"):
            if case["dynamics"]:
                for chain in decay.chains:
                    builder.dynamics_choices.register_builder(chain, dynamics)
            return builder.formulate(
                case["reference"], cleanup_summations=cleanup, use_coefficients=coefficients
            )


def body(case, ctx):
    kin = gens.build_kinematics(case["kin"])
    spins = case["decay"]["spins"]
    plain = formulate(case)
    expected = models.intensity(plain, kin, case["salt"])
    options = {k: case[k] for k in ("all_subsystems", "cleanup", "coefficients")}
    model = formulate(case, **options)
    overrides = {}
    if case["coefficients"]:
        must, may = expected_keys(case)
        found = set()
        for symbol in model.parameter_defaults:
            if not models.is_coupling(symbol):
                continue
            key = coefficient_key(symbol, case)
            found.add(key)
            latex, prod, dec = key
            basis = ["helicity" if b else "LS" for b in case["basis"]]
            overrides[symbol] = gens.coupling_value(
                case["salt"], "production", basis[0], latex, *prod
            ) * gens.coupling_value(case["salt"], "decay", basis[1], latex, *dec)
        check(must <= found, lambda: f"no coefficient for {sorted(must - found)}")
        check(found <= may, lambda: f"superfluous coefficients for {sorted(found - may)}")
    values = models.model_values(model, kin, None if case["coefficients"] else case["salt"], overrides)
    got = models.Evaluator(values, {**model.amplitudes, **model.variables})(model.intensity)
    check(close(got, expected), lambda: f"intensity with {options} is {got}, but {expected} without")
    sums = pool_sums(model.intensity)
    sizes = sorted(len(v) for s in sums for _, v in s.indices)
    with_spin = sorted(2 * [t + 1 for t in spins if t > 0])
    if case["cleanup"]:
        check(
            sizes == with_spin,
            f"clean summations for spins {[t / 2 for t in spins]} run over {sizes} helicities, not {with_spin}",
        )
    else:
        check([n for n in sizes if n > 1] == with_spin, f"summations run over {sizes} helicities")
    if case["all_subsystems"]:
        subsystems = {str(s.base.label) for s in model.amplitudes}
        check(len(subsystems) == 3, f"all_subsystems gives amplitudes {subsystems}")
    n_hel = int(np.prod([t + 1 for t in spins]))
    n_sub = 3 if case["all_subsystems"] else len({c["k"] for c in case["decay"]["chains"]})
    check(
        len(model.amplitudes) == n_hel * n_sub,
        f"{len(model.amplitudes)} amplitudes for {n_hel} helicities and {n_sub} subsystems",
    )
    return {
        "nontrivial": any(options.values()) and max(spins) > 0 and bool(np.any(expected > 1e-6)),
        **{k: v for k, v in options.items()},
        "basis": "".join("h" if b else "l" for b in case["basis"]),
        "spinless states": spins.count(0),
    }


SUBS = [
    Sub("options", cases, body, 600, 18000, "an option is set, a state has spin, the intensity does not vanish", min_nontrivial=0.4),
]
