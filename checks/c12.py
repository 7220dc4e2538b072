"""C12: the Breit-Wigner builder composes propagator and form factors per its flags."""

import numpy as np
import sympy as sp
from ampform.dynamics.phasespace import (
    PhaseSpaceFactor,
    PhaseSpaceFactorAbs,
    PhaseSpaceFactorComplex,
)
from hypothesis import strategies as st

from ampform_dpd import DefinedExpression
from ampform_dpd.dynamics.builder import (
    BreitWignerBuilder,
    formulate_breit_wigner_with_form_factor,
)
from vf import gens, phys
from vf.harness import Sub, check, expect_rejection, spoil, under_test
from vf.interp import Evaluator, close


def strange_phsp(s, m1, m2):
    return s + 3 * (m1 + m2) - sp.Rational(1, 5) * m1 * m2


def rho(s, m1, m2):
    return 2 * phys.breakup_momentum(s, m1, m2) / np.sqrt(s)


PHSP = {
    "default": (None, rho),
    "standard": (PhaseSpaceFactor, rho),
    "abs": (PhaseSpaceFactorAbs, lambda s, m1, m2: np.abs(rho(s, m1, m2))),
    "complex": (PhaseSpaceFactorComplex, rho),
    "strange": (strange_phsp, lambda s, m1, m2: s + 3 * (m1 + m2) - 0.2 * m1 * m2),
}


@st.composite
def cases(draw):
    kin = draw(gens.kinematics(max_size=2, massless=True))
    decay = draw(gens.decay_cases(max_helicities=60, max_resonances=2, need_ls=draw(st.sampled_from([True, True, None])), max_L=draw(st.sampled_from([5, 5, 9]))))
    chains = []
    for c in decay["chains"]:
        i, j = gens.PAIR[c["k"]]
        m = kin["masses"]
        low, high = m[i] + m[j], m[0] - m[c["k"]]
        # nominal masses between the thresholds, some above the upper one
        at = draw(st.one_of(st.integers(5, 95), st.integers(5, 95), st.integers(5, 95), st.integers(105, 150)))
        chains.append({**c, "mass": round(low + (high - low) * at / 100, 6)})
    for c in chains:
        c["mass"] = next(d["mass"] for d in chains if (d["res"], d["k"]) == (c["res"], c["k"]))
    return {
        "decay": {**decay, "chains": chains},
        "kin": kin,
        "flags": [draw(st.booleans()) for _ in range(3)],
        "default": draw(st.sampled_from([False, False, False, True])),
        "phsp": draw(st.sampled_from(sorted(PHSP))),
        "chain": draw(st.integers(0, 7)),
        "scale": [draw(st.integers(500, 2000)) for _ in range(4)],
    }


OTHER_CHAINS = [{"width": 0.0}, {"mass": 0.0, "width": 1.0}, {"prod": None}, {"dec": None}, {"dec": [0, 1], "prod": [0, 1]}]


def body(case, ctx):  # noqa: C901
    decay_case = case["decay"]
    masses = case["kin"]["masses"]
    decay = gens.build_decay(decay_case, masses)
    n = case["chain"] % len(decay_case["chains"])
    c, chain = decay_case["chains"][n], decay.chains[n]
    phsp, phsp_reference = PHSP[case["phsp"]]
    if case["default"]:
        builder, flags, phsp_reference = formulate_breit_wigner_with_form_factor, [True] * 3, rho
    else:
        flags = case["flags"]
        kwargs = {} if phsp is None else {"phsp_factor": phsp}
        with under_test("builder"):
            builder = BreitWignerBuilder(*flags, **kwargs)
    needs = (flags[0] or flags[1], flags[2])
    labels = {
        "flags": "".join("01"[f] for f in flags),
        "phsp": case["phsp"],
        "swapped children": any(c["swap"]),
    }
    if (needs[0] and c["dec"] is None) or (needs[1] and c["prod"] is None):
        with expect_rejection("dynamics without LS couplings"):
            builder(chain)
        return {**labels, "nontrivial": False, "rejected": True}
    with under_test("dynamics builder"):
        first = builder(chain)
        before = first.expression, dict(first.parameters)
    spoil(first.parameters)
    # one builder is used for many chains
    for others in (decay_case, *({**decay_case, "chains": [{**x, **new} for x in decay_case["chains"]]} for new in OTHER_CHAINS)):
        for other in gens.build_decay(others, masses).chains:
            try:
                spoil(builder(other).parameters)
            except ValueError:  # no LS couplings
                pass
    with under_test("dynamics builder"):
        dynamics = builder(chain)
    check(
        (dynamics.expression, dict(dynamics.parameters)) == before,
        lambda: f"dynamics are {dynamics} after calls for other chains, not {before}",
    )

    latex = gens.resonance_latex(c)
    k = c["k"]
    i, j = gens.PAIR[k]
    m_res, w_res = rf"m_{{{latex}}}", rf"\Gamma_{{{latex}}}"
    r_res, r_top = R"R_\mathrm{res}", f"R_{{{gens.STATE_LATEX[0]}}}"
    defaults = {m_res: c["mass"], w_res: c["width"], r_res: 1, r_top: 1}
    defaults.update({f"m{x}": masses[x] for x in range(4)})
    parameters = {s.name: v for s, v in dynamics.parameters.items()}
    check(len(parameters) == len(dynamics.parameters), "two parameters with the same name")
    for name, value in parameters.items():
        check(name in defaults, f"unexpected parameter {name}")
        check(value == defaults[name], f"default of {name} is {value}, not {defaults[name]}")
    used = {s.name for s in dynamics.expression.free_symbols}
    external = {f"sigma{k}", "m0", "m1", "m2", "m3"}
    check(used <= set(parameters) | external, lambda: f"no default for {used - set(parameters) - external}")
    required = {m_res, w_res}
    if flags[1]:
        required |= {f"m{i}", f"m{j}", r_res}
    if flags[2]:
        required |= {"m0", f"m{k}", r_top}
    check(required <= set(parameters), lambda: f"no default for {required - set(parameters)}")
    # kinematic variables are those of the model
    for x in (*dynamics.expression.free_symbols, *dynamics.parameters):
        if x.name in external:
            check(x == sp.Symbol(x.name, nonnegative=True), f"{x} is not the variable of the model")

    # other values than the defaults, so that it matters which symbol is where
    kin = gens.build_kinematics(case["kin"])
    scale = [x / 1000 for x in case["scale"]]
    values = {
        m_res: c["mass"],
        w_res: c["width"] * scale[0],
        r_res: scale[1],
        r_top: scale[2] * 1.1,
        **{f"m{x}": masses[x] for x in range(4)},
        f"sigma{k}": kin.sigma[k],
    }
    symbols = dynamics.expression.free_symbols
    got = Evaluator({s: values[s.name] for s in symbols})(dynamics.expression)
    s, m0, width, d = kin.sigma[k], values[m_res], values[w_res], values[r_res]
    mi, mj = masses[i], masses[j]
    L = c["dec"][0] if c["dec"] else None
    if flags[0]:
        ff2 = phys.blatt_weisskopf_squared((phys.breakup_momentum(s, mi, mj) * d) ** 2, L)
        ff2_0 = phys.blatt_weisskopf_squared((phys.breakup_momentum(m0**2, mi, mj) * d) ** 2, L)
        running = width * ff2 / ff2_0 * phsp_reference(s, mi, mj) / phsp_reference(m0**2, mi, mj)
        expected = m0 * width / (m0**2 - s - 1j * m0 * running)
    else:
        expected = 1 / (m0**2 - s - 1j * m0 * width)
    if flags[2]:
        expected = expected * phys.form_factor(masses[0] ** 2, m0, masses[k], c["prod"][0], values[r_top])
    rtol = 1e-6
    beyond = m0 > masses[0] - masses[k]
    if beyond and flags[2] and not flags[1] and close(got, -expected, rtol):
        expected = -expected  # branch of the square root of a negative form factor
    if not flags[1]:
        check(close(got, expected, rtol), lambda: f"dynamics are {got}, not {expected}")
    else:
        right = expected * phys.form_factor(s, mi, mj, L, d)
        if beyond and flags[2] and close(got, -right, rtol):
            right = -right
        wrong = expected * phys.form_factor(s**2, mi, mj, L, d)
        if not close(got, right, rtol):
            # sign: branch of the square root for a negative argument
            is_known = all(
                close(a, b, rtol) or close(a, -b, rtol)
                for a, b in zip(np.ravel(np.broadcast_to(got, s.shape)), np.ravel(wrong))
            )
            if not is_known:
                check(False, lambda: f"dynamics are {got}, not {right}")
            ctx.known_finding("KF1", f"dynamics are {got}, not {right}")
    return {
        **labels,
        "nominal mass above phase space": bool(beyond),
        "massless states": masses.count(0),
        "nontrivial": any(flags) and ((L or 0) > 0 or (c["prod"] or [0])[0] > 0),
        "L": f"{(c['prod'] or ['-'])[0]}{'-' if L is None else L}",
    }


# ------------------------------------------------------------------ products

SYMBOLS = sp.symbols("a b c d m0 sigma1", nonnegative=True)
PARAMETERS = {s: 0.25 + 0.5 * n for n, s in enumerate(SYMBOLS[:5])}
POINT = {**PARAMETERS, SYMBOLS[5]: 3.5}


@st.composite
def product_cases(draw):
    n = draw(st.integers(1, 4))
    kinds = ["defined", "defined", "pair", "list", "expression", "number"]
    return {
        "factors": [
            [
                "defined" if i == 0 else draw(st.sampled_from(kinds)),
                draw(st.lists(st.integers(0, 5), min_size=1, max_size=3)),
                draw(st.integers(-3, 3)),
            ]
            for i in range(n + 1)
        ],
        "inplace": draw(st.booleans()),
    }


def factor(kind, symbols, shift):
    expr = sp.Mul(*(SYMBOLS[i] + shift for i in symbols))
    parameters = {SYMBOLS[i]: PARAMETERS[SYMBOLS[i]] for i in symbols if SYMBOLS[i] in PARAMETERS}
    if kind == "defined":
        return DefinedExpression(expr, dict(parameters)), expr, parameters
    if kind in {"pair", "list"}:
        return (tuple if kind == "pair" else list)((expr, parameters)), expr, parameters
    if kind == "number":
        return shift + 0.5, sp.Float(shift + 0.5), {}
    return expr, expr, {}


def body_product(case, ctx):
    factors = [factor(*f) for f in case["factors"]]
    product, *_ = factors[0]
    expected, parameters = 1.0, {}
    for _, e, p in factors:
        expected *= complex(e.subs(POINT))
        parameters = {**parameters, **p}
    with under_test("product of defined expressions"):
        for other, *_ in factors[1:]:
            if case["inplace"]:
                product *= other
            else:
                product = product * other
    check(isinstance(product, DefinedExpression), f"product is a {type(product)}")
    got = complex(product.expression.doit().subs(POINT))
    check(abs(got - expected) <= 1e-9 * (1 + abs(expected)), f"product {product.expression} is {got}, not {expected}")
    check(dict(product.parameters) == parameters, f"parameters are {product.parameters}, not {parameters}")
    for n, (obj, e, p) in enumerate(factors):
        if isinstance(obj, DefinedExpression) and not (case["inplace"] and n == 0):
            check(obj.expression == e and dict(obj.parameters) == p, f"factor {n} has become {obj}")
    spoil(product.parameters, DefinedExpression().parameters)
    with under_test("expression without parameters"):
        empty = DefinedExpression()
    check(empty.expression == 1 and not empty.parameters, f"the empty expression has become {empty}")
    return {"nontrivial": len(factors) > 2, **{f[0]: True for f in case["factors"][1:]}}


SUBS = [
    Sub("product", product_cases, body_product, 800, 10000, "more than two factors", min_nontrivial=0.3, shards=2),
    Sub("builder", cases, body, 3500, 50000, "some flag is set and a vertex has orbital angular momentum", min_nontrivial=0.3),
]
