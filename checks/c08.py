"""C08: models are closed and their defaults come from the decay."""

import warnings

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder, DefinedExpression
from ampform_dpd.dynamics.builder import BreitWignerBuilder
from c07 import coefficient_key, expected_keys
from vf import gens, models, phys
from vf.harness import Sub, check, under_test
from vf.interp import sigma_symbols


@st.composite
def cases(draw, max_helicities=16, max_resonances=3):
    basis = draw(gens.bases())
    decay = draw(gens.decay_cases(
        max_helicities=max_helicities,
        max_resonances=max_resonances,
        need_ls=None if all(basis) else True,
    ))
    n = len(decay["chains"])
    return {
        "decay": decay,
        "kin": draw(gens.kinematics(max_size=1, massless=True)),
        "basis": basis,
        "reference": draw(st.sampled_from([None, 1, 2, 3])),
        "all_subsystems": draw(st.booleans()),
        "cleanup": draw(st.booleans()),
        "coefficients": draw(st.booleans()),
        "dynamics": draw(st.lists(
            st.one_of(
                st.sampled_from(["none", "custom"]),
                st.lists(st.booleans(), min_size=3, max_size=3),
            ),
            min_size=n, max_size=n,
        )),
    }


def custom(chain):
    tag = f"{chain.resonance.latex},{chain.spectator.index}"
    x, y = sp.Symbol(f"x_{{{tag}}}"), sp.Symbol(f"y_{{{tag}}}")
    return DefinedExpression(x + y * sigma_symbols()[chain.spectator.index], {x: 0.25 + 1j, y: 0.125})


def effective_dynamics(case):
    """Breit-Wigners that need LS couplings are only used for chains that have them."""
    out = []
    for c, d in zip(case["decay"]["chains"], case["dynamics"]):
        if isinstance(d, list):
            d = [d[0] and c["dec"] is not None, d[1] and c["dec"] is not None, d[2] and c["prod"] is not None]
        out.append(d)
    return out


def formulate(case):
    decay = gens.build_decay(case["decay"], case["kin"]["masses"])
    builder = DalitzPlotDecompositionBuilder(
        decay, min_ls=tuple(case["basis"]), all_subsystems=case["all_subsystems"]
    )
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with under_test("formulate"):
            for chain, d in zip(decay.chains, effective_dynamics(case)):
                if d == "custom":
                    builder.dynamics_choices.register_builder(chain, custom)
                elif d != "none":
                    builder.dynamics_choices.register_builder(chain, BreitWignerBuilder(*d))
            return builder.formulate(
                case["reference"],
                cleanup_summations=case["cleanup"],
                use_coefficients=case["coefficients"],
            )


def dynamics_defaults(case):
    """(required, allowed) defaults of symbols that belong to dynamics."""
    required, allowed = {}, {}
    masses = {f"m{i}": m for i, m in enumerate(case["kin"]["masses"])}
    for c, d in zip(case["decay"]["chains"], effective_dynamics(case)):
        latex = gens.resonance_latex(c)
        if d == "custom":
            tag = f"{latex},{c['k']}"
            required.update({f"x_{{{tag}}}": 0.25 + 1j, f"y_{{{tag}}}": 0.125})
        elif d != "none":
            required.update({f"m_{{{latex}}}": c["mass"], rf"\Gamma_{{{latex}}}": c["width"]})
            allowed[R"R_\mathrm{res}"] = 1
            allowed[f"R_{{{gens.STATE_LATEX[0]}}}"] = 1
            # the mass of an isobar in production form factors
            allowed[f"m_{{{latex}}}"] = c["mass"]
            if d[0] or d[1]:
                required[R"R_\mathrm{res}"] = 1
            if d[2]:
                required[f"R_{{{gens.STATE_LATEX[0]}}}"] = 1
    required.update(masses)
    return required, {**allowed, **required}


def used_symbols(expr) -> set:
    """Symbols and indexed symbols, without the labels and indices of the latter."""
    out = set()
    todo = [sp.sympify(expr)]
    while todo:
        e = todo.pop()
        if isinstance(e, (sp.Symbol, sp.Indexed)):
            out.add(e)
        else:
            todo.extend(a for a in e.args if isinstance(a, sp.Basic))
    return out


def body_defaults(case, ctx):
    model = formulate(case)
    couplings = {s: v for s, v in model.parameter_defaults.items() if models.is_coupling(s)}
    others = {s: v for s, v in model.parameter_defaults.items() if not models.is_coupling(s)}
    check(all(v == 1 for v in couplings.values()), lambda: f"coupling defaults {couplings}")
    must, may = expected_keys(case)
    if case["coefficients"]:
        found = [coefficient_key(s, case) for s in couplings]
    else:
        found = [models.parse_coupling(s) for s in couplings]
        basis = ["helicity" if b else "LS" for b in case["basis"]]

        def vertices(keys):
            return {("production", basis[0], n, *p) for n, p, _ in keys} | {
                ("decay", basis[1], n, *d) for n, _, d in keys
            }

        must, may = vertices(must), vertices(may)
    check(len(set(found)) == len(found), "couplings occur twice")
    check(must <= set(found), lambda: f"no default for couplings {sorted(must - set(found))}")
    check(set(found) <= may, lambda: f"defaults for couplings {sorted(set(found) - may)}")
    required, allowed = dynamics_defaults(case)
    names = {}
    for s, v in others.items():
        check(s.name not in names, f"two symbols with name {s.name}")
        names[s.name] = v
        check(s.name in allowed, f"unexpected parameter {s} = {v}")
        check(v == allowed[s.name], f"default of {s} is {v}, not {allowed[s.name]}")
    check(set(required) <= set(names), lambda: f"no default for {set(required) - set(names)}")
    # numerically closed, at the defaults
    kin = gens.build_kinematics(case["kin"])
    ev = models.evaluator(model, kin)
    value = ev(model.intensity)
    check(np.all(np.isfinite(value)), f"intensity at the defaults is {value}")
    amplitudes = {s for s in used_symbols(model.intensity) if models.is_coupling(s)}
    labels = {str(s.base.label) for s in model.amplitudes}
    check(
        all(str(s.base.label) in labels for s in amplitudes),
        lambda: f"amplitudes {amplitudes} are not defined in {labels}",
    )
    return {
        "nontrivial": max(case["decay"]["spins"]) > 0,
        "dynamics": sum(d != "none" for d in effective_dynamics(case)),
        "breit-wigner": any(isinstance(d, list) for d in effective_dynamics(case)),
        **{k: case[k] for k in ("all_subsystems", "cleanup", "coefficients")},
    }


def body_closed(case, ctx):
    """No free symbols are left in the expression that is to be lambdified."""
    model = formulate(case)
    with under_test("full_expression"):
        expr = model.full_expression
    sigma = set(sigma_symbols().values())
    known = set(model.parameter_defaults) | set(model.variables) | sigma
    used = used_symbols(expr)
    check(used <= known, lambda: f"undefined symbols {used - known}")
    for symbol, definition in model.variables.items():
        left = used_symbols(definition) - set(model.masses) - sigma
        check(not left, f"{symbol} depends on {left}")
    kin = gens.build_kinematics(case["kin"])
    a = models.Evaluator(models.model_values(model, kin, 3), model.variables)(expr)
    b = models.intensity(model, kin, 3)
    check(np.allclose(a, b, rtol=1e-7, atol=1e-9), f"full expression is {a}, intensity is {b}")
    return {
        "nontrivial": max(case["decay"]["spins"]) > 0,
        "breit-wigner": any(isinstance(d, list) for d in effective_dynamics(case)),
        **{k: case[k] for k in ("all_subsystems", "cleanup", "coefficients")},
    }


SUBS = [
    Sub("defaults", cases, body_defaults, 500, 15000, "a state with spin", min_nontrivial=0.5),
    Sub("closed", lambda: cases(6, 2), body_closed, 60, 1500, "a state with spin", min_nontrivial=0.3),
]
ASSUMPTIONS = ["different resonances have different LaTeX representations (couplings are labelled with it)"]
