"""C20: deserialised decays match the model definition, which is validated."""

import copy
import json
import warnings

import sympy as sp
from hypothesis import strategies as st

from ampform_dpd.decay import State, ThreeBodyDecay
from ampform_dpd.io.serialization import decay as sd
from ampform_dpd.io.serialization import format as sf
from ampform_dpd.io.serialization.amplitude import get_existing_subsystem_ids
from vf import gens, serial
from vf.harness import Sub, check, expect_rejection, under_test


# ---------------------------------------------------------------------- decay
@st.composite
def decay_cases(draw):
    case = draw(serial.definitions(
        ls_vertices=True, max_helicities=60, max_resonances=5, max_chains=draw(st.sampled_from([9, 9, 16])),
        share_names=True, free_radii=True, max_two_spin=draw(st.sampled_from([5, 9])),
    ))
    n = len(case["chains"])
    return {
        "definition": case,
        "permutation": draw(st.permutations(range(n))),
        "swaps": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "swap vertices": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "decay nodes": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "latex": draw(st.sampled_from(["none", "map", "map", "constant prefix"])),
        "massless": draw(st.sampled_from([[], [], [1], [2], [3], [1, 3]])),
    }


LATEX = {"none": None, "map": serial.to_latex, "constant prefix": lambda x: rf"\mathrm{{{x}}}"}


def expected_state(case, n, latex):
    name = serial.STATE_NAMES[case["names"]][n]
    return {
        "name": name,
        "latex": latex(name),
        "mass": case["kin"]["masses"][n],
        "spin": gens.half(case["spins"][n]),
        "width": 0,
        "parity": None,
        "index": n,
    }


def check_state(state, expected, what) -> None:
    check(isinstance(state, State), f"{what} is no state")
    got = {k: getattr(state, k) for k in expected}
    check(got == expected, lambda: f"{what} is {got}, not {expected}")
    check(isinstance(state.spin, sp.Rational), lambda: f"spin of {what} is a {type(state.spin)}")


def chain_key(chain):
    return (
        chain.resonance.name,
        chain.resonance.latex,
        chain.resonance.spin,
        tuple(s.index for s in chain.decay_products),
        chain.spectator.index,
    )


def decay_body(case, ctx):  # noqa: ARG001
    d = case["definition"]
    masses = [0 if n in case["massless"] else m for n, m in enumerate(d["kin"]["masses"])]
    d = {**d, "kin": {**d["kin"], "masses": masses}}
    model = serial.build(d)
    chain_defs = model["distributions"][0]["decay_description"]["chains"]
    keys = []
    for n, definition in enumerate(chain_defs):
        res = d["resonances"][d["chains"][n]["res"]]
        k = res["k"]
        nodes = list(serial.PAIR[k])
        if case["decay nodes"][n]:  # either order of the decay products in the node
            for v in definition["vertices"]:
                if v["node"] == nodes:
                    v["node"] = nodes[::-1]
                    if "helicities" in v:
                        v["helicities"] = v["helicities"][::-1]
                elif nodes in v["node"]:
                    v["node"] = [x if x != nodes else nodes[::-1] for x in v["node"]]
            nodes = nodes[::-1]
            definition["propagators"][0]["node"] = nodes
        keys.append((res["name"], res["tJ"], tuple(nodes), k))
    untouched = json.dumps(model)
    to_latex = LATEX[case["latex"]]
    latex = to_latex or (lambda x: x)
    with under_test("to_decay"):
        decay = sd.to_decay(model) if to_latex is None else sd.to_decay(model, to_latex)
    check(isinstance(decay, ThreeBodyDecay), "no decay")
    check(sorted(decay.states) == [0, 1, 2, 3], lambda: f"states {sorted(decay.states)}")
    for n in range(4):
        check_state(decay.states[n], expected_state(d, n, latex), f"state {n}")
    with under_test("accessors of states"):
        states = sd.get_states(model, to_latex)
        initial = sd.get_initial_state(model, to_latex)
        final = sd.get_final_state(model, to_latex)
    check(dict(states) == dict(decay.states), "get_states differs from the states of the decay")
    check(initial == decay.states[0], "initial state")
    check(final == {n: decay.states[n] for n in (1, 2, 3)}, "final state")

    expected = {(name, latex(name), gens.half(tJ), nodes, k) for name, tJ, nodes, k in keys}
    got = [chain_key(c) for c in decay.chains]
    check(len(got) == len(set(got)), lambda: f"repeated chains in {got}")
    check(set(got) == expected, lambda: f"chains {got} instead of {expected}")
    for chain in decay.chains:
        check(chain.incoming_ls is None and chain.outgoing_ls is None, "chain has LS couplings from nowhere")
        check(chain.resonance.mass == 0 and chain.resonance.width == 0 and chain.resonance.parity is None, "resonance properties from nowhere")
        check(chain.parent == decay.states[0], "parent of a chain")
        check(all(p == decay.states[p.index] for p in (*chain.decay_products, chain.spectator)), "particles of a chain")

    with under_test("to_decay_chain"):
        for n, definition in enumerate(chain_defs):
            chain = sd.to_decay_chain(definition, initial, final, to_latex)
            name, tJ, nodes, k = keys[n]
            check(chain_key(chain) == (name, latex(name), gens.half(tJ), nodes, k), lambda: f"chain {n} is {chain}")
    check(get_existing_subsystem_ids(model) == sorted({k for *_, k in keys}), "subsystem ids")

    # order of chains, vertices, final states and keys does not matter
    other = copy.deepcopy(model)
    description = other["distributions"][0]["decay_description"]
    description["chains"] = [description["chains"][n] for n in case["permutation"]]
    for swap, definition in zip(case["swap vertices"], description["chains"]):
        if swap:
            definition["vertices"] = definition["vertices"][::-1]
    for swap, definition in zip(case["swaps"], description["chains"]):
        for v in definition["vertices"]:
            if swap and any(isinstance(x, list) for x in v["node"]):
                v["node"] = v["node"][::-1]
                if "helicities" in v:
                    v["helicities"] = v["helicities"][::-1]
    description["kinematics"]["final_state"] = description["kinematics"]["final_state"][::-1]
    with under_test("to_decay of the reordered model"):
        reordered = sd.to_decay(other, to_latex)
    check(reordered == decay, "decay depends on the order of the definition")
    check(reordered.chains == decay.chains, "order of the chains depends on the order of the definition")
    check(json.dumps(model) == untouched, "model definition was changed")

    # a definition can be edited in place
    description = model["distributions"][0]["decay_description"]
    description["kinematics"]["initial_state"]["mass"] += 0.25
    description["kinematics"]["final_state"][case["permutation"][0] % 3]["mass"] += 0.5
    if len(chain_defs) > 1:
        del description["chains"][case["permutation"][0]]
    description["chains"][0]["propagators"][0]["spin"] = "19/2"
    with under_test("to_decay of the edited model"):
        edited = sd.to_decay(model, to_latex)
        fresh = sd.to_decay(copy.deepcopy(model), to_latex)
        subsystems = get_existing_subsystem_ids(model)
    check(edited == fresh and edited != decay, lambda: f"decay of the edited definition is {edited}, not {fresh}")
    check(subsystems == sorted({c.spectator.index for c in fresh.chains}), "subsystem ids of the edited definition")
    return {
        "nontrivial": len(set(keys)) > 1 and len(set(keys)) < len(chain_defs),
        "latex": case["latex"],
        "chains": len(set(keys)),
        "name in two subsystems": len({k[0] for k in keys}) < len(set(keys)),
    }


# -------------------------------------------------------------------- lookups
def words():
    return st.sampled_from([
        "L1405_BW", "L1405_Flatte", "L1520_BW", "K892_BW", "K700_BuggBW", "BlattWeisskopf_resonance_l1",
        "BlattWeisskopf_resonance_l2", "BlattWeisskopf_b_decay_l1", "D1232_BW", "x", "", "default_lineshape",
    ]) | st.text("abcXYZ_019", min_size=1, max_size=12)


SPELLINGS = [
    str.lower, str.upper, str.swapcase, str.title, str.strip, lambda x: " " + x, lambda x: x + " ", lambda x: x + "_",
    lambda x: x.replace("_", " "), lambda x: x.replace("_", ""), lambda x: x.replace("_", "-"), lambda x: x[:-1],
    lambda x: x[1:], lambda x: x + x, lambda x: x[::-1], lambda x: x.replace("1", "01"), lambda x: x + "\n",
]


@st.composite
def lookup_cases(draw):
    names = draw(st.lists(words(), min_size=0, max_size=8, unique=True))
    for n in draw(st.sampled_from([0, 0, 1, 2])) * [0]:
        if names:
            other = draw(st.sampled_from(SPELLINGS))(names[n])
            if other not in names:
                names.insert(draw(st.integers(0, len(names))), other)
    if names and draw(st.integers(0, 2)) > 0:
        base = draw(st.sampled_from(names))
        pos = draw(st.integers(0, max(0, len(base) - 1)))
        query = draw(st.sampled_from([base, base[:pos] + draw(st.sampled_from("qQ7")) + base[pos + 1 :], base[:pos] + base[pos + 1 :], draw(st.sampled_from(SPELLINGS))(base)]))
    else:
        query = draw(words())
    return {
        "names": names,
        "query": query,
        "distributions": draw(st.sampled_from([0, 1, 1, 1, 2, 3])),
        "distribution names": draw(st.lists(st.sampled_from(["distribution 0", "distribution 1", ""]), min_size=3, max_size=3)),
        "definition": draw(serial.definitions(max_chains=2)),
        "topology": draw(st.sampled_from([
            [1, [2, 3]], [[2, 3], 1], [2, [3, 1]], [[1, 3], 2], [[2, 1], 3], [3, [1, 2]],
            [1, 2], [[1, 2], [3, 4]], [1, 2, 3], [[[1, 2], 3]], [], [[1, 2], 3, 4],
        ])),
    }


def lookup_body(case, ctx):  # noqa: ARG001
    model = serial.build(case["definition"])
    first = model["distributions"][0]
    model["distributions"] = []
    for n in range(case["distributions"]):
        d = copy.deepcopy(first)
        d["name"] = case["distribution names"][n]
        if n > 0:
            d["decay_description"]["chains"] = []
            d["decay_description"]["reference_topology"] = [[9, 8], 7]
        model["distributions"].append(d)
    functions = [{"name": name, "type": "BreitWigner", "mass": 1 + n / 7} for n, name in enumerate(case["names"])]
    model["functions"] = functions

    query = case["query"]
    if query in case["names"]:
        with under_test("get_function_definition"):
            got = sf.get_function_definition(query, model)
        check(got == functions[case["names"].index(query)], lambda: f"function {got} for {query!r}")
    else:
        try:
            got = sf.get_function_definition(query, model)
        except KeyError as e:
            message = str(e.args[0])
        except Exception as e:  # noqa: BLE001
            check(False, f"missing function is reported with {type(e).__name__}: {e}")
        else:
            check(False, f"{query!r} does not exist, but gave {got}")
        check(query in message or repr(query)[1:-1] in message, lambda: f"message does not name {query!r}: {message}")
        close = [n for n in case["names"] if differs_in_one_letter(n, query) and len(n) > 7]
        if close and len(case["names"]) <= 3:
            check(any(n in message for n in close), lambda: f"message does not propose {close}: {message}")

    edited = [*functions[1:], {"name": query, "type": "BreitWigner", "mass": -1.0}]
    if query not in case["names"][1:]:
        model["functions"][:] = edited
        with under_test("get_function_definition of the edited model"):
            got = sf.get_function_definition(query, model)
        check(got == edited[-1], lambda: f"function {got} for {query!r} after editing")
        del model["functions"][-1]
        with expect_rejection("lookup of a function that has been removed", KeyError):
            sf.get_function_definition(query, model)

    accessors = [sf.get_distribution_def, sf.get_decay_chains, sf.get_reference_topology, sd.get_initial_state, sd.to_decay]
    expected = [
        first | {"name": case["distribution names"][0]},
        first["decay_description"]["chains"],
        first["decay_description"]["reference_topology"],
    ]
    for n, accessor in enumerate(accessors):
        what = accessor.__name__
        if case["distributions"] == 0:
            with expect_rejection(f"{what} without distribution", ValueError):
                accessor(model)
            continue
        with warnings.catch_warnings(record=True) as caught, under_test(what):
            warnings.simplefilter("always")
            got = accessor(model)
        warned = any(issubclass(w.category, UserWarning) and str(case["distributions"]) in str(w.message) for w in caught)
        check(warned == (case["distributions"] > 1), lambda: f"{what}: warnings {[str(w.message) for w in caught]} for {case['distributions']} distributions")
        if n < len(expected):
            check(got == expected[n], lambda: f"{what} is {got}, not {expected[n]}")

    spectators = [x for x in case["topology"] if isinstance(x, int)]
    if len(spectators) == 1:
        with under_test("get_spectator_id"):
            got = sd.get_spectator_id(case["topology"])
        check(got == spectators[0], lambda: f"spectator {got} of {case['topology']}")
    else:
        with expect_rejection(f"topology {case['topology']}", ValueError):
            sd.get_spectator_id(case["topology"])
    return {
        "nontrivial": len(case["names"]) > 1 and case["distributions"] > 0,
        "missing function": query not in case["names"],
        "close name": query not in case["names"] and any(differs_in_one_letter(n, query) for n in case["names"]),
        "distributions": case["distributions"],
        "not a three-body topology": len(spectators) != 1,
    }


def differs_in_one_letter(a: str, b: str) -> bool:
    if len(a) == len(b):
        return sum(x != y for x, y in zip(a, b)) == 1
    if len(b) == len(a) - 1:
        return any(a[:i] + a[i + 1 :] == b for i in range(len(a)))
    return False


# ----------------------------------------------------------- invalid definitions
DEFECTS = [
    "no decay vertex", "no production vertex", "spin of resonance", "spin of final state", "spin of initial state",
    "repeated final state", "missing final state", "unknown particle in decay node", "unknown spectator",
    "spectator is a decay product", "index of initial state", "extra final state", "repeated decay product",
]


@st.composite
def invalid_cases(draw):
    return {
        "definition": draw(serial.definitions(max_chains=3)),
        "defect": draw(st.sampled_from(DEFECTS)),
        "chain": draw(st.integers(0, 5)),
        "which": draw(st.integers(0, 2)),
        "value": draw(st.sampled_from(["1/3", "0.25", "2/3", "5/4"])),
    }


def invalid_body(case, ctx):  # noqa: ARG001
    model = serial.build(case["definition"])
    with under_test("to_decay of the valid definition"):
        sd.to_decay(model)
    description = model["distributions"][0]["decay_description"]
    chain = description["chains"][case["chain"] % len(description["chains"])]
    final = description["kinematics"]["final_state"]
    which = case["which"]
    defect = case["defect"]
    production = [v for v in chain["vertices"] if any(isinstance(x, list) for x in v["node"])]
    decay = [v for v in chain["vertices"] if v not in production]
    spectator = chain["topology"][0] if isinstance(chain["topology"][0], int) else chain["topology"][1]
    pair = decay[0]["node"]

    def replace(node, old, new):
        return [replace(x, old, new) if isinstance(x, list) else (new if x == old else x) for x in node]

    if defect == "no decay vertex":
        chain["vertices"] = production
    elif defect == "no production vertex":
        chain["vertices"] = decay
    elif defect == "spin of resonance":
        chain["propagators"][0]["spin"] = case["value"]
    elif defect == "spin of final state":
        final[which]["spin"] = case["value"]
    elif defect == "spin of initial state":
        description["kinematics"]["initial_state"]["spin"] = case["value"]
    elif defect == "repeated final state":
        final[which]["index"] = final[which - 1]["index"]
    elif defect == "missing final state":
        del final[which]
    elif defect == "extra final state":
        final.append({"index": 4, "name": "extra", "spin": "0", "mass": 0.1})
    elif defect == "unknown particle in decay node":
        for v in chain["vertices"]:
            v["node"] = replace(v["node"], pair[which % 2], 4)
    elif defect == "unknown spectator":
        production[0]["node"] = replace(production[0]["node"], spectator, 5)
    elif defect == "spectator is a decay product":
        production[0]["node"] = replace(production[0]["node"], spectator, pair[which % 2])
    elif defect == "repeated decay product":
        for v in chain["vertices"]:
            v["node"] = replace(v["node"], pair[0], pair[1])
    elif defect == "index of initial state":
        description["kinematics"]["initial_state"]["index"] = 1 + which
    with expect_rejection(f"definition with defect: {defect}"):
        sd.to_decay(model)
    return {"nontrivial": True, "defect": defect}


SUBS = [
    Sub("decay", decay_cases, decay_body, 3000, 120000, "several decay chains, of which one occurs several times in the definition", min_nontrivial=0.2),
    Sub("lookup", lookup_cases, lookup_body, 3000, 120000, "several functions and a distribution", min_nontrivial=0.3),
    Sub("invalid", invalid_cases, invalid_body, 1500, 40000, "all cases", min_nontrivial=0.5),
]
