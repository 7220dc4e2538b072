"""C02: invariants, masses and angles of a model describe the same point."""

import re

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd import (
    DalitzPlotDecompositionBuilder,
    create_mass_symbol,
    create_mass_symbol_mapping,
    formulate_invariants,
    formulate_third_mandelstam,
)
from ampform_dpd.dynamics.builder import get_mandelstam_s
from vf import gens, models
from vf.harness import Sub, Violation, check, under_test
from vf.interp import Evaluator, kinematic_values, sigma_symbols

THETA = re.compile(r"^theta_(\d)(\d)$")
ZETA = re.compile(r"^\\zeta\^(\d)_\{(\d)\((\d)\)\}$")
ATOL = 1e-7


def cases():
    return st.fixed_dictionaries({
        "decay": gens.decay_cases(max_helicities=16, max_resonances=3),
        "kin": gens.scaled_kinematics(massless=True),
        "reference": st.sampled_from([None, 1, 2, 3]),
        "all_subsystems": st.booleans(),
        "cleanup": st.booleans(),
    })


def body(case, ctx):
    kin = gens.build_kinematics(case["kin"])
    decay = gens.build_decay(case["decay"], case["kin"]["masses"])
    model = DalitzPlotDecompositionBuilder(decay, all_subsystems=case["all_subsystems"]).formulate(
        case["reference"], cleanup_summations=case["cleanup"]
    )
    sigma = sigma_symbols()
    mass_symbols = {sp.Symbol(f"m{i}", nonnegative=True): kin.m[i] for i in range(4)}
    check(
        dict(model.masses) == mass_symbols,
        lambda: f"masses of the model are {model.masses}, not {mass_symbols}",
    )
    for s, m in mass_symbols.items():
        check(model.parameter_defaults.get(s) == m, f"default of {s} is not {m}")
    check(set(model.invariants) == set(sigma.values()), f"invariants {set(model.invariants)}")
    values = kinematic_values(kin)
    for k, symbol in sigma.items():
        i, j = gens.PAIR[k]
        others = {s: v for s, v in values.items() if s != symbol}
        with under_test(f"evaluation of {symbol}"):
            got = Evaluator(others)(model.invariants[symbol])
        expected = kin.invariant_mass_squared(i, j)
        check(
            np.allclose(got, expected, rtol=1e-9, atol=1e-9 * kin.m[0] ** 2),
            lambda: f"{symbol} is {got}, not {expected} from momenta {i}, {j}",
        )
    allowed = set(values)
    ev = Evaluator(values)
    n_zeta = 0
    for symbol, expr in model.variables.items():
        expr = sp.sympify(expr)
        check(expr.free_symbols <= allowed, f"{symbol} depends on {expr.free_symbols - allowed}")
        if match := THETA.match(symbol.name):
            expected = kin.scattering(*map(int, match.groups()))
        elif match := ZETA.match(symbol.name):
            expected = kin.zeta(*map(int, match.groups()))
            n_zeta += 1
        else:
            raise Violation(f"unknown kinematic variable {symbol}")
        got = np.asarray(ev(expr))
        massless = match.re is ZETA and kin.m[int(match.group(1))] == 0
        # the cosine is 1, up to rounding
        atol = 1e-3 if massless else ATOL
        check(np.all(np.abs(got - expected) < atol), lambda: f"{symbol} is {got}, not {expected}")
    needed = {s for s in model.intensity.free_symbols if isinstance(s, sp.Symbol) and s.name.startswith(("theta", R"\zeta"))}
    for amp in model.amplitudes.values():
        needed |= {s for s in amp.free_symbols if isinstance(s, sp.Symbol) and s.name.startswith(("theta", R"\zeta"))}
    check(needed <= set(model.variables), f"no definition of {needed - set(model.variables)}")
    return {
        "nontrivial": len(set(kin.m[1:])) > 1,
        "zeta angles": bool(n_zeta),
        "subsystems": len({c["k"] for c in case["decay"]["chains"]}),
        "massless states": kin.m.count(0),
        "light states": sum(0 < x < 0.01 * kin.m[0] for x in kin.m),
        "unordered states": case["decay"]["order"] != [0, 1, 2, 3],
    }


def function_cases():
    return st.fixed_dictionaries({
        "decay": gens.decay_cases(max_helicities=16, max_resonances=3),
        "kin": gens.scaled_kinematics(massless=True),
        "pair": st.sampled_from([None, [1, 2], [2, 1], [1, 3], [3, 1], [2, 3], [3, 2]]),
    })


def body_functions(case, ctx):
    """The functions that models are built from, called on their own."""
    kin = gens.build_kinematics(case["kin"])
    decay = gens.build_decay(case["decay"], case["kin"]["masses"])
    with under_test("masses and invariants"):
        masses = create_mass_symbol_mapping(decay)
        invariants = formulate_invariants(decay)
        expr = formulate_third_mandelstam(decay, *(case["pair"] or []))
        symbols = [create_mass_symbol(decay.states[i]) for i in range(4)]
        pairs = {c.spectator.index: get_mandelstam_s(c.decay_node) for c in decay.chains}
    check(
        masses == {sp.Symbol(f"m{i}", nonnegative=True): kin.m[i] for i in range(4)},
        f"masses are {masses}, not {kin.m}",
    )
    check(symbols == [sp.Symbol(f"m{i}", nonnegative=True) for i in range(4)], f"mass symbols {symbols}")
    sigma = sigma_symbols()
    check(set(invariants) == set(sigma.values()), f"invariants are {list(invariants)}")
    for k, s in pairs.items():
        check(s == sigma[k], f"{s} is the invariant of the chain with spectator {k}")
    values = kinematic_values(kin)
    exprs = {k: invariants[sigma[k]] for k in (1, 2, 3)}
    x, y = case["pair"] or (1, 2)
    for k, e in [*exprs.items(), (6 - x - y, expr)]:
        i, j = gens.PAIR[k]
        known = {s: v for s, v in values.items() if s != sigma[k]}
        check(e.free_symbols <= set(known), f"expression of {sigma[k]} depends on {e.free_symbols}")
        got = Evaluator(known)(e)
        expected = kin.invariant_mass_squared(i, j)
        check(
            np.allclose(got, expected, rtol=1e-9, atol=1e-9 * kin.m[0] ** 2),
            lambda: f"{sigma[k]} of {known} is {got}, not {expected}",
        )
    return {
        "nontrivial": case["pair"] not in (None, [1, 2]),
        "unordered states": case["decay"]["order"] != [0, 1, 2, 3],
    }


SUBS = [
    Sub("model", cases, body, 2800, 40000, "final state with at least two different masses", min_nontrivial=0.5),
    Sub("functions", function_cases, body_functions, 400, 8000, "two invariants other than the default ones", min_nontrivial=0.3),
]
