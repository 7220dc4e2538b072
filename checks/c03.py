"""C03: intensity, subsystem amplitudes and aligned amplitudes equal the DPD formula."""

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder, DefinedExpression
from vf import gens, models, phys
from vf.harness import Sub, check, under_test
from vf.interp import Evaluator, close, sigma_symbols


def lineshape_builder(decay_case):
    """A builder with a different lineshape for each chain, and its values."""

    def builder(chain):
        ls = [chain.incoming_ls, chain.outgoing_ls]
        tag = "_".join("n" if x is None else f"{x.L}{int(2 * x.S)}" for x in ls)
        k = chain.spectator.index
        x = sp.Symbol(f"x_{{{chain.resonance.name}|{k}|{tag}}}")
        value = gens.coupling_value(17, chain.resonance.name, k, tag)
        return DefinedExpression(x / (sigma_symbols()[k] + 1), {x: value})

    return builder


def lineshape_values(decay_case, kin):
    out = []
    for c in decay_case["chains"]:
        tag = "_".join("n" if x is None else f"{x[0]}{x[1]}" for x in (c["prod"], c["dec"]))
        x = gens.coupling_value(17, gens.resonance_name(c), c["k"], tag)
        out.append(x / (kin.sigma[c["k"]] + 1))
    return out


@st.composite
def cases(draw, max_helicities=24, max_resonances=3, max_points=2, low_spins=False):
    basis = draw(gens.bases())
    need_ls = None if all(basis) else True
    return {
        "decay": draw(gens.decay_cases(
            max_helicities=max_helicities,
            max_resonances=max_resonances,
            need_ls=need_ls,
            **({"max_two_spin_resonance": 5, "max_L": 4} if low_spins else {}),
            force_all_subsystems=max_resonances >= 3 and draw(st.integers(0, 2)) == 2,
        )),
        "kin": draw(gens.kinematics(max_size=max_points)),
        "basis": basis,
        "basis as bool": draw(st.booleans()),
        "reference": draw(st.sampled_from([1, 2, 3])),
        "salt": draw(gens.salts()),
        "lineshapes": draw(st.booleans()),
    }


def setup(case):
    kin = gens.build_kinematics(case["kin"])
    decay = gens.build_decay(case["decay"], case["kin"]["masses"])
    basis = tuple(case["basis"])
    if case["basis as bool"] and basis[0] == basis[1]:
        builder = DalitzPlotDecompositionBuilder(decay, **({} if basis[0] else {"min_ls": False}))
    else:
        builder = DalitzPlotDecompositionBuilder(decay, min_ls=basis)
    lineshapes = None
    if case["lineshapes"]:
        with under_test("registration of dynamics"):
            for chain in decay.chains:
                builder.dynamics_choices.register_builder(chain, lineshape_builder(case["decay"]))
        lineshapes = lineshape_values(case["decay"], kin)
    return kin, decay, builder, lineshapes


def labels(case, expected):
    d = case["decay"]
    return {
        "nontrivial": bool(np.any(np.abs(expected) > 1e-6)) and max(d["spins"]) > 0,
        "subsystems": len({c["k"] for c in d["chains"]}),
        "J0": d["spins"][0] / 2,
        "basis": "".join("h" if b else "l" for b in case["basis"]),
        "spinning final states": sum(s > 0 for s in d["spins"][1:]),
        "reference without chains": case["reference"] not in {c["k"] for c in d["chains"]},
        "swapped children": any(any(c["swap"]) for c in d["chains"]),
        "shared name": len({c["res"] for c in d["chains"]}) < len({(c["res"], c["k"]) for c in d["chains"]}),
        "several LS": len(d["chains"]) > len({(c["res"], c["k"]) for c in d["chains"]}),
    }


def body_intensity(case, ctx):
    kin, decay, builder, lineshapes = setup(case)
    with under_test("formulate"):
        model = builder.formulate(case["reference"])
    got = models.intensity(model, kin, case["salt"])
    expected = models.reference_intensity(
        case["decay"], kin, case["salt"], case["basis"], case["reference"], lineshapes
    )
    check(close(got, expected), lambda: f"intensity is {got}, but should be {expected}")
    return labels(case, expected)


def body_subsystem(case, ctx):
    kin, decay, builder, lineshapes = setup(case)
    spins = case["decay"]["spins"]
    amplitudes = models.reference_amplitudes(case["decay"], kin, case["salt"], case["basis"], lineshapes)
    seen = []
    for k, amps in amplitudes.items():
        for hel, expected in amps.items():
            with under_test("formulate_subsystem_amplitude"):
                model = builder.formulate_subsystem_amplitude(*map(gens.half, hel), k)
            ((_, expr),) = model.amplitudes.items()
            ev = models.evaluator(model, kin, case["salt"])
            got = ev(expr)
            check(
                close(got, expected),
                lambda: f"amplitude of subsystem {k} for 2*helicities {hel} is {got}, not {expected}",
            )
            with under_test("intensity of subsystem amplitude"):
                squared = ev(model.intensity)
            check(close(squared, np.abs(expected) ** 2), f"intensity of subsystem {k} for {hel}")
            seen.append(np.max(np.abs(expected)))
    return labels(case, np.array(seen))


def body_aligned(case, ctx):
    kin, decay, builder, _ = setup(case)
    case = {**case, "lineshapes": False}
    lineshapes = lineshape_values(case["decay"], kin) if _ is not None else None
    spins = case["decay"]["spins"]
    with under_test("formulate"):
        model = builder.formulate(case["reference"])
    amplitudes = models.reference_amplitudes(case["decay"], kin, case["salt"], case["basis"], lineshapes)
    symbols = sp.symbols("x:4", rational=True)
    with under_test("formulate_aligned_amplitude"):
        generic, zetas = builder.formulate_aligned_amplitude(*symbols, case["reference"])
    values = models.model_values(model, kin, case["salt"])
    ev = Evaluator(values, {**model.amplitudes, **model.variables, **zetas})
    seen = []
    for n, hel in enumerate(phys.helicity_combinations(spins)):
        hel_values = [gens.half(h) for h in hel]
        expected = phys.align(kin, spins, amplitudes, case["reference"], hel)
        got = ev(generic, dict(zip(symbols, hel_values)))
        check(close(got, expected), lambda: f"aligned amplitude for {hel} is {got}, not {expected}")
        if n % 3 == 0:
            with under_test("formulate_aligned_amplitude with numbers"):
                concrete, _ = builder.formulate_aligned_amplitude(*hel_values, case["reference"])
            got = ev(concrete)
            check(close(got, expected), lambda: f"aligned amplitude for {hel} is {got}, not {expected}")
        seen.append(np.max(np.abs(expected)))
    # without reference, the amplitude is aligned to some subsystem of the decay
    with under_test("formulate_aligned_amplitude without reference"):
        default, zetas = builder.formulate_aligned_amplitude(*symbols)
    ev = Evaluator(values, {**model.amplitudes, **model.variables, **zetas})
    candidates = sorted({c["k"] for c in case["decay"]["chains"]})
    got = None
    for hel in phys.helicity_combinations(spins)[:12]:
        got = ev(default, dict(zip(symbols, map(gens.half, hel))))
        candidates = [r for r in candidates if close(got, phys.align(kin, spins, amplitudes, r, hel))]
    check(len(candidates) > 0, lambda: f"default aligned amplitude {got} belongs to no reference subsystem")
    return labels(case, np.array(seen))


def body_full(case, ctx):
    """The symbolic expression that users lambdify."""
    kin, decay, builder, lineshapes = setup(case)
    with under_test("full_expression"):
        model = builder.formulate(case["reference"])
        expr = model.full_expression
        expr = expr.xreplace({k: sp.sympify(v) for k, v in model.variables.items()})
    got = Evaluator(models.model_values(model, kin, case["salt"]))(expr)
    expected = models.reference_intensity(
        case["decay"], kin, case["salt"], case["basis"], case["reference"], lineshapes
    )
    check(close(got, expected), lambda: f"full expression is {got}, but should be {expected}")
    return labels(case, expected)


RULE = "at least one state with spin, and an intensity that does not vanish"
SUBS = [
    Sub("intensity", cases, body_intensity, 700, 20000, RULE, min_nontrivial=0.5),
    Sub("subsystem", lambda: cases(16), body_subsystem, 300, 8000, RULE, min_nontrivial=0.5),
    Sub("aligned", lambda: cases(16), body_aligned, 300, 8000, RULE, min_nontrivial=0.5),
    Sub("full_expression", lambda: cases(6, 2, 1, low_spins=True), body_full, 60, 1500, RULE, min_nontrivial=0.3),
]
ASSUMPTIONS = [
    "Wigner d and Clebsch-Gordan conventions of SymPy (Varshalovich), reimplemented in numpy",
    "resonance helicities and LS node order as in the decay nodes; helicity coupling indices (lambda_R, lambda_k) and (lambda_i, lambda_j) in cyclic (ij)k order",
]
