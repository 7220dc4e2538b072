"""C11: lineshapes evaluate to their defining formulas and reduce to each other."""

import inspect

import numpy as np
import sympy as sp
from ampform.dynamics.phasespace import (
    EqualMassPhaseSpaceFactor,
    PhaseSpaceFactor,
    PhaseSpaceFactorAbs,
    PhaseSpaceFactorComplex,
    PhaseSpaceFactorSWave,
)
from hypothesis import strategies as st

from ampform_dpd import dynamics as dyn
from vf import phys
from vf.harness import Sub, check, under_test
from vf.interp import Evaluator, close


def strange_phsp(s, m1, m2):
    return s + 3 * (m1 + m2) - sp.Rational(1, 5) * m1 * m2


def rho(s, m1, m2):
    return 2 * phys.breakup_momentum(s, m1, m2) / np.sqrt(s)


def rho_equal(s, m1, m2):
    r = rho(s, m1, m2).real
    return r + 1j * r / np.pi * np.log(np.abs((1 + r) / (1 - r)))


def rho_swave(s, m1, m2):
    r = rho(s, m1, m2)
    q = phys.breakup_momentum(s, m1, m2)
    left = r * np.log((m1**2 + m2**2 - s + 2 * np.sqrt(s) * q) / (2 * m1 * m2))
    right = (m1**2 - m2**2) * (1 / s - 1 / (m1 + m2) ** 2) * np.log(m1 / m2)
    return -1j / np.pi * (left - right)


PHSP = {
    "default": (None, rho),
    "standard": (PhaseSpaceFactor, rho),
    "abs": (PhaseSpaceFactorAbs, lambda s, m1, m2: np.abs(rho(s, m1, m2))),
    "complex": (PhaseSpaceFactorComplex, rho),
    "equal": (EqualMassPhaseSpaceFactor, rho_equal),
    "swave": (PhaseSpaceFactorSWave, rho_swave),
    "strange": (strange_phsp, lambda s, m1, m2: s + 3 * (m1 + m2) - 0.2 * m1 * m2),
}
KINDS = ["relativistic", "minl", "bugg", "flatte", "multichannel", "bw", "simple", "channel"]
HAS_PHSP = {"relativistic", "minl", "bw"}


def ff2(s, m1, m2, L, d):
    return phys.blatt_weisskopf_squared((phys.breakup_momentum(s, m1, m2) * d) ** 2, L)


def running_width(v, phsp):
    s, m0, m1, m2, L, d = (v[x] for x in ("s", "m0", "m1", "m2", "L", "d"))
    width = v["w"] * phsp(s, m1, m2) / phsp(m0**2, m1, m2)
    return width * ff2(s, m1, m2, L, d) / ff2(m0**2, m1, m2, L, d)


def bw(s, m0, width):
    return 1 / (m0**2 - s - 1j * m0 * width)


def channel_width(v, w, m1, m2, L, d):
    return w * v["m0"] / np.sqrt(v["s"]) * ff2(v["s"], m1, m2, L, d)


def formula(kind, v, phsp, massless):  # noqa: PLR0911
    s, m0, m1, m2, w = (v[x] for x in ("s", "m0", "m1", "m2", "w"))
    if kind == "simple":
        return bw(s, m0, w)
    if kind == "relativistic":
        return m0 * w * bw(s, m0, running_width(v, phsp))
    if kind == "minl":
        top, spec, L, d = v["top"] ** 2, v["spec"], v["Lp"], v["dp"]
        prod = ff2(top, np.sqrt(s), spec, L, d) / ff2(top, m0, spec, L, d)
        dec = ff2(s, m1, m2, v["L"], v["d"]) / ff2(m0**2, m1, m2, v["L"], v["d"])
        prod, dec = (np.sqrt(np.asarray(x, dtype=complex)) for x in (prod, dec))
        return prod * dec * bw(s, m0, running_width(v, phsp))
    if kind == "bugg":
        zero = m1**2 - m2**2 / 2
        g2 = (s - zero) / (m0**2 - zero) * m0 * w * np.exp(-v["gamma"] * s)
        return 1 / (m0**2 - s - 1j * g2)
    if kind == "flatte":
        q0 = phys.breakup_momentum(m0**2, v["m3"], v["m4"])
        width = w * phys.breakup_momentum(s, m1, m2) + v["w2"] * phys.breakup_momentum(s, v["m3"], v["m4"])
        return bw(s, m0, width / q0 * m0 / np.sqrt(s))
    if kind == "channel":
        return channel_width(v, w, m1, m2, v["L"], v["d"])
    if kind == "multichannel":
        width = sum(channel_width(v, *c) for c in v["channels"])
        return bw(s, m0, width)
    if kind == "bw":
        if massless:
            return bw(s, m0, w)
        return bw(s, m0, running_width(v, phsp))
    raise NotImplementedError(kind)


def build(kind, a, phsp, massless, n_channels, keywords=False):  # noqa: PLR0911
    """The expression, from symbols or numbers."""
    kw = {} if phsp is None else {"phsp_factor": phsp}
    if kind == "simple":
        return dyn.SimpleBreitWigner(a["s"], a["m0"], a["w"])
    if kind == "relativistic":
        return dyn.RelativisticBreitWigner(a["s"], a["m0"], a["w"], a["m1"], a["m2"], a["L"], a["d"], **kw)
    if kind == "minl":
        return dyn.BreitWignerMinL(
            s=a["s"], decaying_mass=a["top"], spectator_mass=a["spec"], resonance_mass=a["m0"],
            resonance_width=a["w"], child2_mass=a["m2"], child1_mass=a["m1"], l_dec=a["L"],
            l_prod=a["Lp"], R_dec=a["d"], R_prod=a["dp"], **kw,
        )
    if kind == "bugg":
        return dyn.BuggBreitWigner(a["s"], a["m0"], a["w"], a["m1"], a["m2"], a["gamma"])
    if kind == "flatte":
        return dyn.FlattéSWave(a["s"], a["m0"], (a["w"], a["w2"]), (a["m1"], a["m2"]), (a["m3"], a["m4"]))
    if kind == "channel":
        return dyn.ChannelArguments(a["s"], a["m0"], a["w"], a["m1"], a["m2"], a["L"], a["d"])
    if kind == "multichannel":
        channels = tuple(
            dyn.ChannelArguments(a["s"], a["m0"], *(a[f"{x}_{n}"] for x in ("w", "m1", "m2", "L", "d")))
            for n in range(n_channels)
        )
        return dyn.MultichannelBreitWigner(a["s"], a["m0"], channels)
    if massless:
        return dyn.BreitWigner(a["s"], a["m0"], a["w"], **kw)
    return dyn.BreitWigner(
        s=a["s"], mass=a["m0"], width=a["w"], m1=a["m1"], m2=a["m2"],
        angular_momentum=a["L"], meson_radius=a["d"], **kw,
    )


mass = st.integers(50, 1500)
angular_momentum = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 9), st.just(0))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from([*KINDS, "bw"]))
    case = {
        "kind": kind,
        "m": [draw(mass), draw(mass), draw(mass), draw(mass)],
        "zero": draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 3])),  # massless decay products
        "m0_excess": draw(st.integers(10, 2000)),
        "s_excess": draw(st.lists(st.integers(5, 2500), min_size=1, max_size=3)),
        "w": [draw(st.integers(1, 800)), draw(st.integers(1, 800))],
        "L": [draw(angular_momentum), draw(angular_momentum)],
        "d": [draw(st.integers(100, 5000)), draw(st.integers(100, 5000))],
        "top_excess": draw(st.integers(10, 3000)),
        "gamma": draw(st.integers(-500, 1500)),
        "phsp": draw(st.sampled_from(sorted(PHSP))) if kind in HAS_PHSP else "default",
        "massless": draw(st.booleans()),
        "channels": [],
        "mode": draw(st.sampled_from(["evaluator", "lambdify", "subs", "numbers", "nested"])),
        "at_pole": draw(st.booleans()),
        "equal": draw(st.sampled_from([0, 0, 0, 0, 1, 1, 1, 2])),  # coinciding arguments
        "beyond": "",
    }
    if kind in HAS_PHSP and not case["at_pole"]:
        # nominal masses outside of the phase space of the decay
        case["beyond"] = draw(st.sampled_from(["", "", "", "below", "above", "below"]))
    if kind == "multichannel":
        any_mass = st.one_of(mass, mass, st.just(0))
        channel = st.tuples(st.integers(1, 500), any_mass, any_mass, angular_momentum, st.integers(100, 5000))
        case["channels"] = [list(c) for c in draw(st.lists(channel, min_size=1, max_size=draw(st.sampled_from([4, 4, 7]))))]
    for n in (0, 1):
        if case["zero"] >> n & 1:
            case["m"][n] = 0
    if case["equal"]:
        case["m"][1] = case["m"][0]
    if case["equal"] == 2:
        case["m"] = [case["m"][0]] * 4
        for x in ("w", "L", "d"):
            case[x] = [case[x][0]] * 2
    if case["zero"] and case["phsp"] in {"equal", "swave", "strange"}:
        # logarithms of zero masses, or not constant for massless decay products
        case["phsp"] = "complex"
    if case["beyond"]:
        if case["phsp"] in {"equal", "swave"}:
            case["phsp"] = "standard"
        if not case["m"][0] * case["m"][1]:
            case["beyond"] = "above"
        # for the branch of square roots
        case["mode"] = draw(st.sampled_from(["numbers", "subs"]))
    return case


def values(case):
    """Parameters as exact numbers, with energies above all thresholds."""
    m1, m2, m3, m4 = case["m"]
    if case["kind"] == "bugg":
        # no pole of the width
        m2 = max(m2, m1)
    threshold = m1 + m2
    if case["kind"] == "flatte":
        threshold = max(threshold, m3 + m4)
    for _, a, b, _, _ in case["channels"]:
        threshold = max(threshold, a + b)
    q = lambda x: sp.Rational(x, 1000)  # noqa: E731
    m0 = threshold + case["m0_excess"]
    energies = [threshold + e for e in case["s_excess"]]
    if case["at_pole"]:
        energies[0] = m0
    top = max(m0, *energies) + case["m"][3] + case["top_excess"]
    if case["beyond"] == "below":
        m0 = (abs(m1 - m2) * case["m0_excess"] + threshold * 2010) // (case["m0_excess"] + 2010)
    if case["beyond"] == "above":
        m0 = top - case["m"][3] + case["m0_excess"]
    v = {
        "m0": q(m0), "m1": q(m1), "m2": q(m2), "m3": q(m3), "m4": q(m4),
        "w": q(case["w"][0]), "w2": q(case["w"][1]),
        "L": sp.Integer(case["L"][0]), "Lp": sp.Integer(case["L"][1]),
        "d": q(case["d"][0]), "dp": q(case["d"][1]),
        "top": q(top), "spec": q(case["m"][3]), "gamma": q(case["gamma"]),
    }
    for n, (w, a, b, L, d) in enumerate(case["channels"]):
        v.update({f"w_{n}": q(w), f"m1_{n}": q(a), f"m2_{n}": q(b), f"L_{n}": sp.Integer(L), f"d_{n}": q(d)})
    return v, [q(e) for e in energies]


INTEGERS = ("L", "Lp")


def symbol(name):
    if name.split("_")[0] in INTEGERS:
        return sp.Symbol(name, integer=True, nonnegative=True)
    if name == "gamma":
        return sp.Symbol(name, real=True)
    return sp.Symbol(name, nonnegative=True)


def evaluate(case, v, energies, phsp):
    """Evaluate the expression in one of several ways."""
    mode, kind, massless, n = case["mode"], case["kind"], case["massless"], len(case["channels"])
    args = {name: symbol(name) for name in v}
    if case["equal"]:
        args["m2"] = args["m1"]
    s = symbol("s")
    e = np.array([float(x) for x in energies])
    ints = {symbol(name): x for name, x in v.items() if name.split("_")[0] in INTEGERS}
    rest = {symbol(name): x for name, x in v.items() if name.split("_")[0] not in INTEGERS}
    if mode == "numbers":
        with under_test("expression of numbers"):
            exprs = [build(kind, {**v, "s": x**2}, phsp, massless, n) for x in energies]
        return np.array([complex(Evaluator({})(x)) for x in exprs])
    if mode == "nested":
        # an invariant mass as argument, with numbers inserted before unfolding
        w = symbol("mR")
        with under_test("unfolding"):
            floats = {k: sp.Float(float(x)) for k, x in rest.items()}
            expr = build(kind, {**args, "s": w**2}, phsp, massless, n).subs({**ints, **floats}).doit()
        func = sp.lambdify(w, expr, "numpy")
        return func(e + 0j)
    with under_test("construction"):
        expr = build(kind, {**args, "s": s}, phsp, massless, n)
    if mode == "evaluator":
        return Evaluator({s: e**2, **{k: x if k in ints else float(x) for k, x in {**ints, **rest}.items()}})(
            expr.xreplace(ints)
        )
    if mode == "lambdify":
        with under_test("unfolding"):
            unfolded = expr.xreplace(ints).doit()
        func = sp.lambdify([s, *rest], unfolded, "numpy")
        return func(e**2 + 0j, *(complex(x) for x in rest.values()))
    with under_test("substitution"):
        expr = expr.subs(ints).subs(rest)
        unfolded = expr.doit()
    return np.array([complex(sp.N(unfolded.subs(s, x**2), 20)) for x in energies])


def body(case, ctx):
    v, energies = values(case)
    phsp, phsp_reference = PHSP[case["phsp"]]
    massless = case["massless"] and case["kind"] == "bw"
    got = evaluate(case, v, energies, phsp)
    numbers = {k: int(x) if x.is_Integer and k.split("_")[0] in INTEGERS else float(x) for k, x in v.items()}
    numbers["channels"] = [
        [numbers[f"{x}_{n}"] for x in ("w", "m1", "m2", "L", "d")] for n in range(len(case["channels"]))
    ]
    numbers["s"] = np.array([float(x) ** 2 for x in energies])
    expected = formula(case["kind"], numbers, phsp_reference, massless)
    # cancellation in m0^2 - s near the pole
    pole = bw(numbers["s"], numbers["m0"], numbers["w"])
    rtol = 1e-6 + 1e-12 * (numbers["m0"] ** 2 + numbers["s"]) * np.maximum(np.abs(expected), np.abs(pole))
    if case["beyond"] and case["kind"] == "minl" and not close(got, expected, rtol, 1e-12):
        # branch of the square roots of negative form factors
        expected = expected * np.where(np.real(got * np.conj(expected)) < 0, -1, 1)
    check(close(got, expected, rtol, 1e-12), lambda: f"{case['kind']} is {got}, not {expected}")
    if case["kind"] == "bw":
        given = {x: y for x, y in v.items() if x.split("_")[0] in INTEGERS}
        rest = {symbol(x): float(y) for x, y in v.items() if x not in given}
        args = {**{x: symbol(x) for x in v}, **given, "s": symbol("s")}
        with under_test("energy-dependent width"):
            width = build("bw", args, phsp, massless, 0).energy_dependent_width()
            width = Evaluator({symbol("s"): numbers["s"], **rest})(sp.sympify(width))
        m0 = numbers["m0"]
        width_expected = 1j * (1 / expected - m0**2 + numbers["s"]) / m0
        scale = np.abs(1 / expected) + m0**2 + numbers["s"]
        check(
            close(np.broadcast_to(width, numbers["s"].shape), width_expected, 1e-6, 1e-12 + 1e-10 * np.max(scale) / m0),
            lambda: f"width is {width}, not {width_expected}",
        )
    if case["at_pole"]:
        first = np.ravel(np.broadcast_to(got, numbers["s"].shape))[0]
        m0, w = numbers["m0"], numbers["w"]
        if case["kind"] in {"bw", "simple", "minl"}:
            check(close(first, 1j / (m0 * w), rtol[0]), f"at the nominal mass, {case['kind']} is {first}")
        elif case["kind"] == "relativistic":
            check(close(first, 1j, rtol[0]), f"at the nominal mass, {case['kind']} is {first}")
    return {
        "nontrivial": case["kind"] != "simple" and (case["L"][0] > 0 or case["kind"] in {"bugg", "flatte"}),
        "kind": case["kind"],
        "mode": case["mode"],
        "phsp": case["phsp"] if case["kind"] in HAS_PHSP else "none",
        "at the pole": case["at_pole"],
        "coinciding arguments": case["equal"],
        "nominal mass": case["beyond"] or "inside",
        "massless decay products": bin(case["zero"]).count("1"),
    }


def body_substitution(case, ctx):
    """Substituting arguments is the same as constructing with those arguments."""
    v, _ = values(case)
    kind, n = case["kind"], len(case["channels"])
    massless = case["massless"] and kind == "bw"
    phsp, _ = PHSP[case["phsp"]]
    args = {"s": symbol("s"), **{name: symbol(name) for name in v}}
    names = list(args)
    chosen = [x for i, x in enumerate(names) if (case["m"][i % 4] >> (i // 4)) & 1]
    new = {x: v.get(x, sp.Symbol("t", nonnegative=True) ** 2) for x in chosen}
    with under_test("construction"):
        expr = build(kind, args, phsp, massless, n)
        expected = build(kind, {**args, **new}, phsp, massless, n)
    mapping = {args[x]: y for x, y in new.items()}
    with under_test("substitution"):
        results = {
            "xreplace": expr.xreplace(mapping),
            "subs": expr.subs(mapping, simultaneous=False),
            "identity": expr.xreplace({}).xreplace(mapping),
            "func": expr.func(*expr.args, **non_sympy(expr)).xreplace(mapping),
        }
    for how, result in results.items():
        check(result == expected, lambda: f"{how} gives {result!r}, not {expected!r}")
        check(type(result) is type(expected), f"{how} gives a {type(result)}")
        check(hash(result) == hash(expected), f"{how}: hash differs")
        check(result.free_symbols == expected.free_symbols, f"{how}: other free symbols")
        if case["phsp"] != "default" or hasattr(expected, "phsp_factor"):
            want = PHSP[case["phsp"]][0] or PhaseSpaceFactor
            check(
                getattr(result, "phsp_factor", None) is want,
                f"{how}: phase space factor is {getattr(result, 'phsp_factor', None)}",
            )
    if kind in HAS_PHSP:
        with under_test("comparison"):
            other = build(kind, args, strange_phsp if phsp is not strange_phsp else rho, massless, n)
        check(other != expr, "expressions with different phase space factors are equal")
    if kind in {"bw", "channel"}:
        # what is left out is a pair of massless particles, an S wave, and a radius of one
        given = {"s": args["s"], ("mass" if kind == "bw" else "m0"): args["m0"], "width": args["w"]}
        full = {"m1": 0, "m2": 0, "angular_momentum": 0, "meson_radius": 1}
        new = {"m1": args["m1"], "m2": args["m2"], "angular_momentum": args["L"], "meson_radius": args["d"]}
        if kind == "bw":
            full["phsp_factor"] = PhaseSpaceFactor
            if phsp is not None:
                new["phsp_factor"] = phsp
        new = {x: y for i, (x, y) in enumerate(new.items()) if case["m0_excess"] >> i & 1}
        cls = dyn.BreitWigner if kind == "bw" else dyn.ChannelArguments
        with under_test("construction with defaults"):
            short = cls(**given, **new)
        explicit = cls(**given, **{**full, **new})
        check(short == explicit, lambda: f"{kind} with {sorted(new)} is {short!r}, not {explicit!r}")
        with under_test("unfolding"):
            unfolded = [x.doit(deep=False) for x in (short, explicit)]
        check(unfolded[0] == unfolded[1], "unfolding depends on explicit defaults")
    with under_test("LaTeX"):
        latex = sp.latex(expr)
    check(isinstance(latex, str), "no LaTeX")
    shown = ["s", "m0", "w"] if kind in {"relativistic", "bw", "simple", "channel"} else ["s"]
    shown += [f"w_{x}" for x in range(n)]
    for x in shown:
        check(sp.latex(args[x]) in latex, lambda: f"no {x} in the LaTeX of {kind}: {latex}")
    return {"nontrivial": bool(chosen), "kind": kind, "phsp": case["phsp"] != "default"}


def non_sympy(expr):
    fields = getattr(expr, "_non_sympy_fields", None) or []
    names = [f if isinstance(f, str) else f.name for f in fields]
    if not names and "phsp_factor" in inspect.signature(type(expr)).parameters:
        names = ["phsp_factor"]
    return {x: getattr(expr, x) for x in names}


SUBS = [
    Sub("formula", cases, body, 3200, 80000, "orbital angular momentum, or Bugg or Flatté", min_nontrivial=0.4),
    Sub("substitution", cases, body_substitution, 1200, 12000, "some argument is substituted", min_nontrivial=0.6),
]
ASSUMPTIONS = ["ampform's phase space factors mean what their documentation says"]
