"""C22: deserialised lineshapes and form factors follow their function definitions."""

import copy

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd import DefinedExpression
from ampform_dpd.io.serialization.dynamics import (
    formulate_dynamics,
    formulate_form_factor,
    to_mandelstam_symbol,
)
from vf import gens, phys, serial
from vf.harness import Sub, check, expect_rejection, spoil, under_test
from vf.interp import Evaluator, close

ALIEN = {"name": "other function", "type": "BreitWigner", "mass": 9.9, "width": 9.9, "ma": 0.0, "mb": 0.0, "l": 0, "d": 9.9}


def evaluate(dynamics, values, what):
    check(isinstance(dynamics, DefinedExpression), lambda: f"{what}: no {DefinedExpression.__name__}")
    parameters = dynamics.parameters
    used = dynamics.expression.free_symbols
    check(
        all(s in parameters or s.name in values for s in used),
        lambda: f"{what}: no value for {[s for s in used if s not in parameters and s.name not in values]}",
    )
    inserted = {s: parameters[s] if s in parameters else values[s.name] for s in used}
    with under_test(f"evaluation of {what}"):
        return Evaluator(inserted)(dynamics.expression)


# ----------------------------------------------------------------- lineshapes
@st.composite
def shape_cases(draw):
    kin = draw(gens.kinematics(max_size=3))
    k = draw(st.sampled_from([1, 2, 3]))
    shape = draw(serial.lineshapes(kin, k, custom=True))
    # masses in the function need not be those of the states
    own = [draw(st.integers(1, 49)) / 100 for _ in range(2)]
    special = draw(st.sampled_from(["free", "free", "free", "of states", "massless", "equal"]))
    return {
        "kin": kin,
        "k": k,
        "shape": shape,
        "own": own,
        "special": special,
        "swapped": draw(st.booleans()),
        "spin": draw(st.integers(0, 9)),
        "name": draw(st.sampled_from(serial.NAMES)),
        "latex": draw(st.booleans()),
        "override": draw(st.sampled_from([False, False, True])),
        "position": draw(st.integers(0, 3)),
        "strings": draw(st.booleans()),
    }


def masses_of_shape(case, kin):
    i, j = serial.PAIR[case["k"]]
    lowest = min(float(np.min(np.sqrt(kin.sigma[case["k"]]))), case["shape"]["mass"])
    ma, mb = (round(x * lowest, 6) for x in case["own"])
    if case["special"] == "of states":
        return [kin.m[i], kin.m[j]] if not case["swapped"] else [kin.m[j], kin.m[i]]
    if case["special"] == "massless":
        return [0.0, 0.0]
    if case["special"] == "equal":
        return [ma, ma]
    return [ma, mb]


class Recorder:
    """A user-supplied builder that keeps track of its calls."""

    def __init__(self) -> None:
        self.calls: list = []

    def __call__(self, propagator, resonance, model):
        self.calls.append((copy.deepcopy(propagator), resonance))
        shape = next(f for f in model["functions"] if f["name"] == propagator["parametrization"])
        s = to_mandelstam_symbol(propagator["node"])
        g = sp.Symbol(f"slope_{{{resonance}}}")
        return DefinedExpression(expression=sp.exp(-g * s), parameters={g: shape["mass"]})


def check_fresh(dynamics, formulate):
    """Modifying the parameters of a result has no effect on the next one."""
    before = dynamics.expression, dict(dynamics.parameters)
    spoil(dynamics.parameters)
    with under_test("formulation after a result was modified"):
        again = formulate()
    check(
        (again.expression, dict(again.parameters)) == before,
        lambda: f"result is {again}, once an earlier one ({before}) is modified",
    )


def shape_body(case, ctx):  # noqa: ARG001
    kin = gens.build_kinematics(case["kin"])
    shape, k = case["shape"], case["k"]
    node = list(serial.PAIR[k])
    if case["swapped"]:
        node = node[::-1]
    ma, mb = masses_of_shape(case, kin)
    kind = shape["type"]
    name = f"{case['name']}_function"
    function = {"name": name, "type": kind, "mass": shape["mass"]}
    if kind == "BreitWigner":
        L = str(shape["l"]) if case["strings"] else shape["l"]
        function.update(width=shape["width"], l=L, d=shape["d"], ma=ma, mb=mb)
    elif kind == "MultichannelBreitWigner":
        function["channels"] = [dict(c) for c in shape["channels"]]
        function["channels"][0].update(ma=ma, mb=mb)
    functions = [{**ALIEN, "name": f"{case['name']}_funct"}, {**ALIEN, "name": f"{case['name']}_function_2"}]
    functions.insert(case["position"] % 3, function)
    chain = {
        "name": case["name"],
        "propagators": [{"spin": serial.fraction(case["spin"]), "node": node, "parametrization": name}],
        "vertices": [],
        "topology": [node, k],
        "weight": "1",
    }
    model = {"distributions": [], "functions": functions, "domains": [], "misc": {}, "parameter_points": []}
    latex = serial.to_latex if case["latex"] else (lambda x: x)
    kwargs = {"to_latex": latex} if case["latex"] else {}
    recorder = Recorder()
    values = {f"sigma{n}": kin.sigma[n] for n in (1, 2, 3)}
    labels = {"type": kind, "node": "anticyclic" if case["swapped"] else "cyclic", "L": shape["l"] if kind == "BreitWigner" else False}
    others = {"Unrelated": recorder, "BreitWignerX": recorder}
    if kind == "Custom" and not case["override"]:
        with expect_rejection("function of unknown type", NotImplementedError):
            formulate_dynamics(chain, model, additional_definitions=others if case["spin"] % 2 else None, **kwargs)
        check(not recorder.calls, "builder of another type was called")
        return {**labels, "nontrivial": False, "rejected": True}
    if kind == "Custom" or case["override"]:
        with under_test("formulate_dynamics with own builder"):
            dynamics = formulate_dynamics(chain, model, additional_definitions={kind: recorder}, **kwargs)
        check(recorder.calls == [(chain["propagators"][0], latex(case["name"]))], lambda: f"builder was called with {recorder.calls}")
        got = evaluate(dynamics, values, "own lineshape")
        want = np.exp(-shape["mass"] * kin.sigma[k])
        check(close(got, want), lambda: f"own lineshape is {got}, not {want}")
        with under_test("formulate_dynamics after a call with own builder"):
            if kind == "Custom":
                return {**labels, "nontrivial": True, "own builder": True}
            formulate_dynamics(chain, model, **kwargs)
        check(len(recorder.calls) == 1, "builder of an earlier call was used")
    with under_test("formulate_dynamics"):
        dynamics = formulate_dynamics(chain, model, additional_definitions=others, **kwargs)
    check(len(recorder.calls) <= 1, "builder of another type was called")
    got = evaluate(dynamics, values, kind)
    s = kin.sigma[k]
    if kind == "BreitWigner":
        want = serial.energy_dependent_bw(s, shape["mass"], shape["width"], ma, mb, shape["l"], shape["d"])
    else:
        channels = [dict(c) for c in shape["channels"]]
        channels[0].update(ma=ma, mb=mb)
        want = serial.multichannel_bw(s, shape["mass"], [(c["gsq"], c["ma"], c["mb"], c["l"], c["d"]) for c in channels])
    check(close(got, want, 1e-6), lambda: f"{kind} is {got}, not {want}")
    # the value is symmetric in both masses, but the first one belongs to the first particle of the node
    for i, mass in zip(node, (ma, mb), strict=True):
        default = dynamics.parameters.get(sp.Symbol(f"m{i}", nonnegative=True), mass)
        check(default == mass, lambda: f"mass of particle {i} in {kind} is {default}, not {mass} (node {node})")
    check_fresh(dynamics, lambda: formulate_dynamics(chain, model, additional_definitions=others, **kwargs))
    closed = kind == "MultichannelBreitWigner" and any(c["ma"] + c["mb"] > np.sqrt(np.min(s)) for c in shape["channels"][1:])
    return {
        **labels,
        "nontrivial": kind == "MultichannelBreitWigner" or shape["l"] > 0 or case["special"] != "massless",
        "masses": case["special"],
        "closed channel": bool(closed),
        "channels": len(shape["channels"]) if kind == "MultichannelBreitWigner" else False,
    }


# --------------------------------------------------------------- form factors
@st.composite
def factor_cases(draw):
    return {
        "definition": draw(serial.definitions(max_chains=1, free_radii=True, ls_vertices=True)),
        "vertex": draw(st.sampled_from(["production", "decay"])),
        "L": draw(st.one_of(st.integers(0, 4), st.integers(0, 9))),
        "radius": draw(serial.thousandths(200, 6000)),
        "reversed": [draw(st.booleans()), draw(st.booleans())],
        "kind": draw(st.sampled_from(["plain", "plain", "plain", "plain", "none", "empty", "other type", "missing"])),
        "strings": draw(st.booleans()),
        "shuffle": draw(st.booleans()),
    }


def factor_body(case, ctx):  # noqa: ARG001
    d = case["definition"]
    kin = gens.build_kinematics(d["kin"])
    model = serial.build(d)
    k = d["resonances"][0]["k"]
    pair = list(serial.PAIR[k])
    if case["reversed"][0]:
        pair = pair[::-1]
    node = pair if case["vertex"] == "decay" else ([k, pair] if case["reversed"][1] else [pair, k])
    vertex = {"type": "helicity", "node": node, "helicities": ["0", "0"]}
    name = "BW_l_function"
    kind = case["kind"]
    if kind == "empty":
        vertex["formfactor"] = ""
    elif kind != "none":
        vertex["formfactor"] = name
    L = str(case["L"]) if case["strings"] else case["L"]
    definition = {"name": name, "type": "BlattWeisskopf", "l": L, "radius": case["radius"]}
    if kind == "other type":
        definition["type"] = "MomentumPower"
    similar = {"name": name + "1", "type": "BlattWeisskopf", "l": 4, "radius": 77.0}
    if kind != "missing":
        model["functions"].insert(0 if case["shuffle"] else len(model["functions"]), definition)
    model["functions"].insert(0, similar)
    labels = {"vertex": case["vertex"], "kind": kind}
    if kind in {"other type", "missing"}:
        with expect_rejection(f"form factor: {kind}", NotImplementedError if kind == "other type" else KeyError):
            formulate_form_factor(vertex, model)
        return {**labels, "nontrivial": False}
    with under_test("formulate_form_factor"):
        factor = formulate_form_factor(vertex, model)
    values = {f"sigma{n}": kin.sigma[n] for n in (1, 2, 3)} | {f"m{n}": kin.m[n] for n in range(4)}
    got = evaluate(factor, values, "form factor")
    if kind in {"none", "empty"}:
        check(got == 1 and not factor.parameters, lambda: f"form factor {factor} of a vertex without form factor")
        check_fresh(factor, lambda: formulate_form_factor(vertex, model))
        return {**labels, "nontrivial": False}
    if case["vertex"] == "decay":
        i, j = pair
        want = phys.form_factor(kin.sigma[k], kin.m[i], kin.m[j], case["L"], case["radius"])
    else:
        want = phys.form_factor(kin.m[0] ** 2, np.sqrt(kin.sigma[k]), kin.m[k], case["L"], case["radius"])
    check(close(got, want), lambda: f"form factor is {got}, not {want}")
    check_fresh(factor, lambda: formulate_form_factor(vertex, model))
    return {**labels, "nontrivial": case["L"] > 0, "L": case["L"]}


# ------------------------------------------------------------- whole propagators
@st.composite
def chain_cases(draw):
    return {
        "definition": draw(serial.definitions(max_chains=6, max_resonances=4, free_radii=True)),
        "latex": draw(st.booleans()),
    }


def chain_body(case, ctx):  # noqa: ARG001
    """Dynamics of every chain of one definition, in the context of the others."""
    d = case["definition"]
    kin = gens.build_kinematics(d["kin"])
    model = serial.build(d)
    before = copy.deepcopy(model)
    chains = model["distributions"][0]["decay_description"]["chains"]
    kwargs = {"to_latex": serial.to_latex} if case["latex"] else {}
    values = {f"sigma{n}": kin.sigma[n] for n in (1, 2, 3)} | {f"m{n}": kin.m[n] for n in range(4)}
    for c, definition in zip(d["chains"], chains):
        res = d["resonances"][c["res"]]
        with under_test("formulate_dynamics"):
            dynamics = formulate_dynamics(definition, model, **kwargs)
        got = evaluate(dynamics, values, "propagator")
        want = serial.lineshape_value(res["lineshape"], kin, res["k"])
        check(close(got, want, 1e-6), lambda: f"propagator of {res['name']} is {got}, not {want}")
        product = 1.0
        for vertex in definition["vertices"]:
            with under_test("formulate_form_factor"):
                factor = formulate_form_factor(vertex, model)
            product = product * evaluate(factor, values, "form factor")
        want = serial.form_factors_value(d, c, kin)
        check(close(product, want), lambda: f"form factors of {res['name']} are {product}, not {want}")
    check(model == before, "the definition was changed")
    # a definition can be edited in place
    for n, function in enumerate(model["functions"]):
        for key in ("mass", "width", "radius", "d"):
            if key in function:
                function[key] += 0.125 * (n + 1)
        for channel in function.get("channels", []):
            channel["gsq"] += 0.125
    fresh = copy.deepcopy(model)
    for n, definition in enumerate(chains):
        with under_test("formulation of an edited definition"):
            got = [formulate_dynamics(definition, model, **kwargs), *(formulate_form_factor(v, model) for v in definition["vertices"])]
            copied = fresh["distributions"][0]["decay_description"]["chains"][n]
            want = [formulate_dynamics(copied, fresh, **kwargs), *(formulate_form_factor(v, fresh) for v in copied["vertices"])]
        check(got == want, lambda: f"dynamics of the edited definition are {got}, not {want}")  # noqa: B023
    kinds = {r["lineshape"]["type"] for r in d["resonances"]}
    return {"nontrivial": len(d["resonances"]) > 1, "several types": len(kinds) > 1}


SUBS = [
    Sub("lineshapes", shape_cases, shape_body, 1500, 50000, "the width depends on the energy or a user-supplied builder is called", min_nontrivial=0.3),
    Sub("form factors", factor_cases, factor_body, 2500, 50000, "Blatt-Weisskopf factor with angular momentum", min_nontrivial=0.2),
    Sub("chains", chain_cases, chain_body, 800, 15000, "several resonances", min_nontrivial=0.2),
]
