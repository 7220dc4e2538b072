"""C21: deserialised amplitudes combine each chain as its definition says."""

import copy

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd import DefinedExpression
from ampform_dpd.dynamics import BuggBreitWigner
from ampform_dpd.io.serialization.amplitude import (
    HelicityRecoupling,
    LSRecoupling,
    ParityRecoupling,
    formulate,
    formulate_recoupling,
)
from ampform_dpd.io.serialization.decay import get_final_state
from ampform_dpd.io.serialization.dynamics import to_mandelstam_symbol, to_mass_symbol
from ampform_dpd.io.serialization.format import get_function_definition
from vf import gens, phys, published, serial
from vf.harness import Sub, Violation, check, expect_rejection, under_test
from vf.interp import Evaluator, close, kinematic_values, two


def custom_builder(propagator, resonance, model):
    shape = next(f for f in model["functions"] if f["name"] == propagator["parametrization"])
    s = to_mandelstam_symbol(propagator["node"])
    m, w, g = sp.symbols([f"m_{{{resonance}}}", rf"\Gamma_{{{resonance}}}", rf"\gamma_{{{resonance}}}"], nonnegative=True)
    return DefinedExpression(
        expression=sp.exp(-g * s) / (m**2 - s - sp.I * m * w),
        parameters={m: shape["mass"], w: shape["width"], g: shape["slope"]},
    )


LATEX = {"none": None, "map": serial.to_latex}


def formulate_model(definition, latex=None, cleanup=False):
    kwargs = {}
    if latex is not None:
        kwargs["to_latex"] = latex
    return formulate(definition, cleanup_summations=cleanup, additional_builders={"Custom": custom_builder}, **kwargs)


def evaluator_of(model, kin) -> Evaluator:
    # the masses are parameters of the model
    sigmas = {x: v for x, v in kinematic_values(kin).items() if x.name.startswith("sigma")}
    values = {**model.parameter_defaults, **sigmas}
    return Evaluator(values, {**model.amplitudes, **model.variables})


def evaluate_intensity(model, kin):
    with under_test("evaluation of the intensity"):
        value = evaluator_of(model, kin)(model.intensity)
    value = np.broadcast_to(np.asarray(value, dtype=complex), kin.sigma[1].shape)
    check(np.all(np.abs(value.imag) < 1e-8 * (1 + np.abs(value))), lambda: f"intensity is not real: {value}")
    return value.real


@st.composite
def model_cases(draw):
    case = draw(serial.definitions(max_helicities=draw(st.sampled_from([4, 8, 8, 16])), custom=True, max_resonances=4, max_chains=8, max_two_spin=draw(st.sampled_from([5, 5, 9]))))
    if draw(st.integers(0, 4)) == 0:  # once more the same chain, possibly with another form factor
        twin = copy.deepcopy(draw(st.sampled_from(case["chains"])))
        if draw(st.booleans()):
            twin["dec"]["ff"] = draw(st.sampled_from([None, 0, 1, 2]))
        case["chains"].insert(draw(st.integers(0, len(case["chains"]))), twin)
    return {
        "definition": case,
        "latex": draw(st.sampled_from(["none", "map"])),
        "cleanup": draw(st.booleans()),
        "permutation": draw(st.permutations(range(len(case["chains"])))),
    }


def model_body(case, ctx):  # noqa: ARG001
    d = case["definition"]
    kin = gens.build_kinematics(d["kin"])
    spins = d["spins"]
    definition = serial.build(d)
    original = copy.deepcopy(definition)
    with under_test("formulate"):
        model = formulate_model(definition, LATEX[case["latex"]], case["cleanup"])
    check(definition == original, "formulate changed the definition")
    ev = evaluator_of(model, kin)
    expected = serial.amplitudes(d, kin)
    seen: dict = {k: set() for k in expected}
    shape = kin.sigma[1].shape
    for symbol, expr in model.amplitudes.items():
        base = str(symbol.base.label)
        check(base in {"A^1", "A^2", "A^3"}, lambda: f"unknown amplitude {symbol}")
        k = int(base[-1])
        hel = tuple(two(x) for x in symbol.indices)
        check(k in expected, lambda: f"amplitude {symbol} of a subsystem without chains")
        check(hel in expected[k], lambda: f"amplitude {symbol} for impossible helicities")
        seen[k].add(hel)
        with under_test(f"evaluation of {symbol}"):
            got = np.broadcast_to(ev(expr), shape)
        want = np.broadcast_to(expected[k][hel], shape)
        check(close(got, want), lambda: f"amplitude {symbol} is {got}, not {want}")
    for k, table in expected.items():
        missing = set(table) - seen[k]
        check(not missing, lambda: f"no amplitudes of subsystem {k} for {missing}")
    n_nonzero = sum(np.any(np.abs(v) > 1e-9) for table in expected.values() for v in table.values())

    want = serial.intensity(d, kin)
    got = evaluate_intensity(model, kin)
    check(close(got, want), lambda: f"intensity is {got}, not {want}")
    free = {s for s in model.intensity.free_symbols if isinstance(s, sp.Symbol)}
    check(isinstance(model.intensity, sp.Expr) and free is not None, "no intensity")

    # the other options and another order of the chains
    other_definition = serial.build(d, case["permutation"])
    with under_test("formulate with reordered chains"):
        other = formulate_model(other_definition, LATEX[case["latex"]], not case["cleanup"])
    got = evaluate_intensity(other, kin)
    check(close(got, want), lambda: f"intensity with reordered chains, cleanup={not case['cleanup']}: {got}, not {want}")
    check(
        {s.name: v for s, v in other.parameter_defaults.items()} == {s.name: v for s, v in model.parameter_defaults.items()},
        "parameters depend on the order of the chains",
    )
    # a definition can be edited in place
    if len(d["chains"]) < 4:
        distribution = definition["distributions"][0]["decay_description"]
        distribution["chains"][0]["weight"] = "0.25 - 2.0i"
        distribution["chains"][-1]["vertices"].reverse()
        distribution["reference_topology"] = {1: [[3, 1], 2], 2: [[1, 2], 3], 3: [[2, 3], 1]}[d["reference"][0]]
        for function in definition["functions"]:
            if "mass" in function:
                function["mass"] += 0.125
        with under_test("formulate the edited definition"):
            edited, fresh = (
                formulate_model(x, LATEX[case["latex"]], case["cleanup"])
                for x in (definition, copy.deepcopy(definition))
            )
        for name in ("intensity", "amplitudes", "variables", "parameter_defaults"):
            check(getattr(edited, name) == getattr(fresh, name), f"other {name} for a definition that was edited in place")
        check(edited.parameter_defaults != model.parameter_defaults, "editing the definition has no effect")
    # the model describes the states of the definition
    masses = {s.name: v for s, v in model.masses.items()}
    check(masses == {f"m{n}": d["kin"]["masses"][n] for n in range(4)}, lambda: f"masses {masses}")
    for sigma, expr in model.invariants.items():
        k = int(sigma.name[-1])
        i, j = phys.CYCLIC[k]
        with under_test(f"invariant {sigma}"):
            value = Evaluator({**kinematic_values(kin), **model.masses})(expr)
        check(close(value, kin.invariant_mass_squared(i, j)), f"invariant {sigma}")
    types = {c["prod"]["type"] + "/" + c["dec"]["type"] for c in d["chains"]}
    return {
        "nontrivial": n_nonzero > 1 and len(d["chains"]) > 1,
        "subsystems": len(expected),
        "reference without chains": d["reference"][0] not in expected,
        "aligned": len(set(expected) - {d["reference"][0]}) > 0 and any(spins),
        "several chains in one amplitude": len(d["chains"]) > len(expected),
        "J0": spins[0],
        "twins": len(d["chains"]) > len({(c["res"], *c["prod"]["helicities"], *c["dec"]["helicities"]) for c in d["chains"]}),
        "parity vertices": any("parity" in t for t in types),
        "form factors": any(c[v]["ff"] is not None for c in d["chains"] for v in ("prod", "dec")),
        **{f"lineshape {d['resonances'][c['res']]['lineshape']['type']}": True for c in d["chains"]},
    }


# ----------------------------------------------------------------- recoupling
@st.composite
def recoupling_cases(draw):
    case = draw(serial.definitions(max_helicities=200, max_chains=4, ls_vertices=True, max_resonances=2, max_two_spin=draw(st.sampled_from([5, 9]))))
    return {
        "definition": case,
        "chain": draw(st.integers(0, 7)),
        "which": draw(st.sampled_from(["prod", "dec"])),
        "outside": draw(st.lists(st.integers(-7, 7), min_size=2, max_size=2)),
    }


def helicity_symbol(x):
    return sp.Symbol(R"\lambda_R" if isinstance(x, (list, tuple)) else f"lambda{x}", rational=True)


def recoupling_body(case, ctx):  # noqa: ARG001
    d = case["definition"]
    definition = serial.build(d)
    n = case["chain"] % len(d["chains"])
    chain = d["chains"][n]
    res = d["resonances"][chain["res"]]
    which = case["which"]
    v = chain[which]
    k = res["k"]
    i, j = serial.PAIR[k]
    index = {"prod": 0, "dec": 1}[which]
    if chain["vertices reversed"]:
        index = 1 - index
    with under_test("formulate_recoupling"):
        expr = formulate_recoupling(definition, n, index)
    spins = d["spins"]
    if which == "prod":
        triple = (spins[0], res["tJ"], spins[k])
        symbols = (helicity_symbol([i, j]), helicity_symbol(k))
    else:
        triple = (res["tJ"], spins[i], spins[j])
        symbols = (helicity_symbol(i), helicity_symbol(j))
    check(expr.free_symbols <= set(symbols), lambda: f"symbols {expr.free_symbols}, expected {symbols}")
    n_nonzero = 0
    combos = [(a, b) for a in phys.projections(triple[1]) for b in phys.projections(triple[2])]
    if v["type"] != "ls":
        # helicities that no state has do not couple either
        a, b = case["outside"]
        combos.append((triple[1] + 2 * abs(a) + 2, b % 2 + triple[2] + 2))
    for ta, tb in combos:
        values = {s: gens.half(t) for s, t in zip(symbols, (ta, tb))}
        want = serial.vertex_value(v, ta, tb, triple)
        with under_test("evaluation of the recoupling factor"):
            exact = expr.subs(values).doit()
            got = complex(exact)
            numeric = Evaluator({s: float(x) for s, x in values.items()})(expr)
        check(abs(got - want) < 1e-9, lambda: f"{v['type']} recoupling for helicities {(ta, tb)}/2 is {got}, not {want}")
        check(abs(numeric - want) < 1e-9, lambda: f"{v['type']} recoupling for {(ta, tb)}/2 is {numeric}, not {want}")
        n_nonzero += abs(want) > 1e-12
    return {
        "nontrivial": n_nonzero > 0 and len(combos) > 2,
        "type": v["type"],
        "vertex": which,
        "reversed": bool(v["reversed"]),
        "factor": repr(v["factor"]) if v["type"] == "parity" else False,
        "L": v["ls"][0] if v["type"] == "ls" else False,
    }


# ------------------------------------------------- recoupling expression classes
@st.composite
def class_cases(draw):
    ta, tb = draw(st.integers(0, 5)), draw(st.integers(0, 5))
    tJ = draw(st.sampled_from([t for t in range(7) if (t + ta + tb) % 2 == 0]))
    return {
        "spins": [tJ, ta, tb],
        "L": draw(st.integers(0, 5)),
        "S": draw(st.integers(0, 5)),
        "reference": [draw(st.sampled_from(phys.projections(t))) for t in (ta, tb)],
        "factor": draw(st.sampled_from([1, -1, 0])),
    }


def class_body(case, ctx):  # noqa: ARG001
    tJ, ta, tb = case["spins"]
    lower, upper = abs(ta - tb), ta + tb
    tS = lower + 2 * (case["S"] % ((upper - lower) // 2 + 1))
    L = case["L"]
    a0, b0 = (gens.half(t) for t in case["reference"])
    n_nonzero = 0
    sums = 0.0
    for ma in phys.projections(ta):
        for mb in phys.projections(tb):
            a, b = gens.half(ma), gens.half(mb)
            same = (ma, mb) == tuple(case["reference"])
            mirrored = (-ma, -mb) == tuple(case["reference"])
            with under_test("recoupling classes"):
                hel = HelicityRecoupling(a, b, a0, b0).doit()
                par = ParityRecoupling(a, b, a0, b0, case["factor"]).doit()
            check(hel == int(same), lambda: f"helicity recoupling {hel} for {(a, b, a0, b0)}")
            check(par == same + case["factor"] * mirrored, lambda: f"parity recoupling {par} for {(a, b, a0, b0)}")
            want = phys.recoupling(L, tS, tJ, ta, ma, tb, mb)
            if abs(ma - mb) <= min(tS, tJ):
                with under_test("LS recoupling"):
                    got = complex(LSRecoupling(a, b, L, gens.half(tS), gens.half(ta), gens.half(tb), gens.half(tJ)).doit())
                check(abs(got - want) < 1e-9, lambda: f"LS recoupling {got}, not {want}")
                sums += abs(got) ** 2
                n_nonzero += abs(want) > 1e-9
    if (L, tS) in phys.allowed_ls(tJ, ta, tb, L):
        # completeness: each coupling is a unit vector in the space of helicity couplings
        check(abs(sums - 1) < 1e-9, lambda: f"norm of LS recoupling is {sums}")
    return {"nontrivial": n_nonzero > 1, "allowed": (L, tS) in phys.allowed_ls(tJ, ta, tb, L)}


# ----------------------------------------------------------- invalid definitions
DEFECTS = ["ls vertex", "unknown vertex type", "parity factor", "three vertices", "one vertex", "reference topology", "unknown function type"]


@st.composite
def invalid_cases(draw):
    return {
        "definition": draw(serial.definitions(max_helicities=4, max_chains=3)),
        "defect": draw(st.sampled_from(DEFECTS)),
        "chain": draw(st.integers(0, 5)),
        "vertex": draw(st.integers(0, 1)),
        "text": draw(st.sampled_from(["x", "++", "1", "+-"])),
    }


def invalid_body(case, ctx):  # noqa: ARG001
    definition = serial.build(case["definition"])
    description = definition["distributions"][0]["decay_description"]
    chain = description["chains"][case["chain"] % len(description["chains"])]
    vertex = chain["vertices"][case["vertex"]]
    defect = case["defect"]
    if defect == "ls vertex":
        vertex.pop("helicities")
        vertex.update(type="ls", l="0", s="0")
    elif defect == "unknown vertex type":
        vertex["type"] = case["text"]
    elif defect == "parity factor":
        vertex.update(type="parity", parity_factor=case["text"])
    elif defect == "three vertices":
        chain["vertices"].append(copy.deepcopy(vertex))
    elif defect == "one vertex":
        chain["vertices"].remove(vertex)
    elif defect == "reference topology":
        description["reference_topology"] = [[1, 2], [3, 4]] if case["vertex"] else [1, 2, 3]
    elif defect == "unknown function type":
        name = chain["propagators"][0]["parametrization"]
        next(f for f in definition["functions"] if f["name"] == name)["type"] = case["text"]
    with expect_rejection(f"definition with defect: {defect}"):
        formulate_model(definition)
    return {"nontrivial": True, "defect": defect}


# ------------------------------------------------------------------- known finding
@st.composite
def collision_cases(draw):
    return {
        "definition": draw(serial.definitions(max_helicities=4, max_chains=6, max_resonances=4, free_radii=True, share_names=True, max_two_spin=2)),
    }


def weight_key(d, c):
    """What the symbol of the weight of a chain consists of."""
    res = d["resonances"][c["res"]]
    k = res["k"]
    i, j = phys.CYCLIC[k]
    hel = dict(zip((k, i, j), (c["prod"]["helicities"][1], *c["dec"]["helicities"])))
    return (res["name"], c["prod"]["helicities"][0], hel[1], hel[2], hel[3])


def collided(d, radii_only: bool):
    """The definition that one gets if the last value of a shared symbol overrides all others."""
    d = copy.deepcopy(d)
    d["resonances"] = [copy.deepcopy(d["resonances"][c["res"]]) for c in d["chains"]]
    chains = d["chains"]
    store: dict = {}
    for n, c in enumerate(chains):
        c["res"] = n
        name, shape = d["resonances"][n]["name"], d["resonances"][n]["lineshape"]
        store["weight", weight_key(d, c)] = c["weight"], c["weight format"]
        store["mass", name] = shape["mass"]
        if shape["type"] == "MultichannelBreitWigner":
            store["width", name] = shape["channels"][0]["gsq"]
            store["radius", name] = shape["channels"][0]["d"]
            for m, channel in enumerate(shape["channels"][1:], 2):
                store["channel", name, m] = {x: channel[x] for x in ("gsq", "ma", "mb", "d")}
        else:
            store["width", name] = shape["width"]
            store["slope", name] = shape["slope"] if shape["type"] == "Custom" else store.get(("slope", name))
            if shape["type"] == "BreitWigner":
                store["R"] = shape["d"]
        for kind, symbol in (("prod", "Rp"), ("dec", "R")):
            if c[kind]["ff"] is not None:
                store[symbol] = d["form factors"][kind][c[kind]["ff"]]["radius"]
    for kind, symbol in (("prod", "Rp"), ("dec", "R")):
        for f in d["form factors"][kind]:
            f["radius"] = store.get(symbol, f["radius"])
    for n, c in enumerate(chains):
        name, shape = d["resonances"][n]["name"], d["resonances"][n]["lineshape"]
        shape["d"] = store.get("R", shape["d"])
        if radii_only:
            continue
        c["weight"], c["weight format"] = store["weight", weight_key(d, c)]
        shape["mass"] = store["mass", name]
        shape["width"] = store["width", name]
        shape["slope"] = store.get(("slope", name)) or shape["slope"]
        if shape["type"] == "MultichannelBreitWigner":
            shape["channels"][0].update(gsq=store["width", name], d=store["radius", name])
            for m, channel in enumerate(shape["channels"][1:], 2):
                channel.update(store["channel", name, m])
    return d


def collision_body(case, ctx):
    d = case["definition"]
    kin = gens.build_kinematics(d["kin"])
    with under_test("formulate"):
        model = formulate_model(serial.build(d))
    for res in collided(d, radii_only=False)["resonances"]:
        i, j = phys.CYCLIC[res["k"]]
        if res["lineshape"]["mass"] <= kin.m[i] + kin.m[j]:
            # with the mass of another resonance, the width is not defined
            return {"nontrivial": False, "finding": "undefined"}
    want = serial.intensity(d, kin)
    got = evaluate_intensity(model, kin)
    finding = None
    if not close(got, want):
        if close(got, serial.intensity(collided(d, radii_only=True), kin)):
            finding = "KF2"
        elif close(got, serial.intensity(collided(d, radii_only=False), kin)):
            finding = "KF3"
        else:
            raise Violation(f"intensity is {got}, not {want}")
        ctx.known_finding(finding, f"intensity is {got}, not {want}")
    return {"nontrivial": len(d["chains"]) > 1, "finding": finding}


# ------------------------------------------------------------- published model
N_PUBLISHED = len(published.description_of(published.load())["chains"])


@st.composite
def published_cases(draw):
    return {
        "chains": draw(
            st.lists(st.integers(0, N_PUBLISHED - 1), min_size=1, max_size=10, unique=True)
            | st.just(list(range(N_PUBLISHED)))
        ),
        "relabel": draw(st.integers(0, 2)),
        "reference": draw(st.sampled_from([None, None, [1, [2, 3]], [[2, 3], 1], [2, [3, 1]], [[3, 1], 2], [3, [1, 2]], [[1, 2], 3]])),
        "radii": [draw(serial.thousandths(500, 5000)) if draw(st.booleans()) else None for _ in range(2)],
        "scale": draw(st.lists(st.integers(-300, 300), min_size=15, max_size=15)),
        "weights": draw(st.lists(st.tuples(st.integers(-900, 900), st.integers(-900, 900)) | st.none(), min_size=N_PUBLISHED, max_size=N_PUBLISHED)),
        "points": draw(gens.points(1, 3)),
        "pair": draw(st.sampled_from([1, 2, 3])),
        "cleanup": draw(st.booleans()),
    }


def published_definition(case) -> dict:
    model = published.load()
    description = published.description_of(model)
    for chain, weight in zip(description["chains"], case["weights"]):
        if weight is not None:
            chain["weight"] = f"{weight[0] / 100} {weight[1] / 100:+}i"
    description["chains"] = [description["chains"][n] for n in case["chains"]]
    decay_radius, production_radius = case["radii"]
    for f, x in zip(model["functions"], case["scale"]):
        for key in ("width", "slope"):
            if key in f:
                f[key] *= 1 + x / 1000
        if "mass" in f and x % 2:
            f["mass"] += x / 10_000
        for channel in f.get("channels", []):
            channel["gsq"] *= 1 + x / 1000
        if decay_radius is not None and f["type"] == "BreitWigner":
            f["d"] = decay_radius
        if f["type"] == "BlattWeisskopf":
            radius = production_radius if "b_decay" in f["name"] else decay_radius
            f["radius"] = f["radius"] if radius is None else radius
    if case["relabel"]:
        n = case["relabel"]
        model = published.relabel(model, {i: (i - 1 + n) % 3 + 1 for i in (1, 2, 3)})
        description = published.description_of(model)
    if case["reference"] is not None:
        description["reference_topology"] = case["reference"]
    return model


def bugg_builder(propagator, resonance, model):
    f = get_function_definition(propagator["parametrization"], model)
    i, j = propagator["node"]
    states = get_final_state(model)
    m, w, g = sp.symbols([f"m_{{{resonance}}}", rf"\Gamma_{{{resonance}}}", rf"\gamma_{{{resonance}}}"], nonnegative=True)
    m1, m2 = to_mass_symbol(i), to_mass_symbol(j)
    return DefinedExpression(
        expression=BuggBreitWigner(to_mandelstam_symbol(propagator["node"]), m, w, m1, m2, g),
        parameters={m: f["mass"], w: f["width"], g: f["slope"], m1: states[i].mass, m2: states[j].mass},
    )


def published_body(case, ctx):  # noqa: ARG001
    definition = published_definition(case)
    original = copy.deepcopy(definition)
    masses = [s["mass"] for s in published.states_of(definition)]
    kin = phys.Kinematics(masses, case["points"], case["pair"])
    with under_test("formulate"):
        model = formulate(
            definition,
            cleanup_summations=case["cleanup"],
            additional_builders={"BreitWignerWidthExpLikeBugg": bugg_builder},
        )
    check(definition == original, "formulate changed the definition")
    got = evaluate_intensity(model, kin)
    want = published.intensity(definition, kin)
    check(close(got, want), lambda: f"intensity is {got}, not {want}")
    chains = published.description_of(definition)["chains"]
    return {
        "nontrivial": len({tuple(c["propagators"][0]["node"]) for c in chains}) > 1,
        "all chains": len(chains) == N_PUBLISHED,
        "relabelled": case["relabel"] > 0,
        "other reference": case["reference"] is not None,
        "changed radii": any(r is not None for r in case["radii"]),
        "Bugg": any("Bugg" in c["propagators"][0]["parametrization"] for c in chains),
        "Flatte": any("Flatte" in c["propagators"][0]["parametrization"] for c in chains),
    }


SUBS = [
    Sub("models", model_cases, model_body, 700, 20000, "several chains and several amplitudes that do not vanish", min_nontrivial=0.2),
    Sub("recoupling", recoupling_cases, recoupling_body, 1200, 30000, "several helicity combinations, of which some couple", min_nontrivial=0.2),
    Sub("classes", class_cases, class_body, 400, 10000, "several helicity combinations with an LS coupling", min_nontrivial=0.2),
    Sub("invalid", invalid_cases, invalid_body, 300, 8000, "the definition is invalid", min_nontrivial=0.5),
    Sub("collisions", collision_cases, collision_body, 240, 5000, "several chains", min_nontrivial=0.1),
    Sub("published", published_cases, published_body, 120, 3000, "chains of several subsystems", min_nontrivial=0.3),
]
