"""C23: decays and models are reproducible values, also in other processes."""

import copy
import hashlib
import logging
import pickle
import warnings

import sympy as sp
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder, DefinedExpression
from ampform_dpd.adapter.qrules import (
    filter_min_ls,
    permute_equal_final_states,
    to_three_body_decay,
)
from ampform_dpd.dynamics.builder import BreitWignerBuilder
from ampform_dpd.io import as_markdown_table, aslatex
from ampform_dpd.io.serialization.amplitude import formulate as formulate_definition
from vf import gens, peer, reactions, serial
from vf.harness import Sub, Violation, check, spoil, under_test
from vf.interp import sigma_symbols

MODULE = "c23"
SEEDS = (1, 2)
logging.getLogger("ampform_dpd").setLevel(logging.ERROR)


# -------------------------------------------------------------------- objects
def custom(chain):
    tag = f"{chain.resonance.latex},{chain.spectator.index}"
    x, y = sp.Symbol(f"x_{{{tag}}}"), sp.Symbol(f"y_{{{tag}}}")
    return DefinedExpression(x + y * sigma_symbols()[chain.spectator.index], {x: 0.25 + 1j, y: 0.125})


def of_model(model) -> dict:
    return {
        "decay": model.decay,
        "intensity": model.intensity,
        "amplitudes": model.amplitudes,
        "variables": model.variables,
        "parameter_defaults": model.parameter_defaults,
        "masses": model.masses,
        "invariants": model.invariants,
    }


def of_decay(decay) -> dict:
    return {
        "states": decay.states,
        "chains": decay.chains,
        "subsystems": {k: decay.get_subsystem(k) for k in (1, 2, 3)},
        "lookups": {c.resonance.name: decay.find_chain(c.resonance.name) for c in decay.chains},
        "table": as_markdown_table(decay),
        "LaTeX": aslatex(decay),
    }


def build_objects(case) -> dict:
    """Everything that is built for a case, by name."""
    kind = case["kind"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "decay":
            decay = gens.build_decay(case["decay"], case["masses"])
            builder = DalitzPlotDecompositionBuilder(
                decay, min_ls=tuple(case["basis"]), all_subsystems=case["all_subsystems"]
            )
            for chain, d in zip(decay.chains, case["dynamics"]):
                if d == "custom":
                    builder.dynamics_choices.register_builder(chain, custom)
                elif d == "breit-wigner":
                    ls = chain.incoming_ls is not None and chain.outgoing_ls is not None
                    builder.dynamics_choices.register_builder(chain, BreitWignerBuilder(ls, ls, ls))
            model = builder.formulate(
                case["reference"], cleanup_summations=case["cleanup"], use_coefficients=case["coefficients"]
            )
            return {**of_decay(decay), **of_model(model), "model": model}
        if kind == "transitions":
            transitions = [reactions.build_transition(case, t) for t in case["transitions"]]
            collection = set(transitions) if case["set"] else transitions
            decay = to_three_body_decay(collection, min_ls=case["min_ls"])
            out = {**of_decay(decay), "decay": decay}
            out["permutations"] = [
                [describe_transition(p) for p in permute_equal_final_states(t)] for t in transitions
            ]
            if case["canonical"]:
                unprojected = [reactions.build_transition(case, t, projections=False) for t in case["transitions"]]
                selected = filter_min_ls(set(unprojected) if case["set"] else unprojected)
                # which order the collection has is not promised
                out["minimal LS"] = sorted(map(describe, selected))
            return out
        definition = serial.build(case["definition"])
        model = formulate_definition(definition, cleanup_summations=case["cleanup"])
        return {**of_decay(model.decay), **of_model(model), "model": model}


def describe_transition(t) -> str:
    """Which state is on which edge, regardless of the order of dictionaries."""
    edges = sorted((i, e.originating_node_id, e.ending_node_id) for i, e in t.topology.edges.items())
    parts = [sorted((i, repr(x)) for i, x in d.items()) for d in (t.states, t.interactions)]
    return repr((edges, parts))


def describe(x) -> str:
    """Text that identifies an object and the order of its parts."""
    if isinstance(x, dict):
        return "{" + ", ".join(f"{describe(k)}: {describe(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(describe, x)) + "]"
    if isinstance(x, sp.Basic):
        return sp.srepr(x)
    return repr(x)


def digests(objects) -> dict:
    out = {}
    for name, x in objects.items():
        text = "" if name == "model" else describe(x)
        out[name] = hashlib.sha1(text.encode()).hexdigest() + " " + text[:200]
    return out


def hash_of(x):
    try:
        return hash(x)
    except TypeError:
        return None


def compare_copies(objects, copies, how) -> None:
    for name, x in objects.items():
        y = copies[name]
        check(type(x) is type(y), f"{how} of {name} is a {type(y).__name__}")
        check(bool(x == y) and not (x != y), lambda: f"{how} of {name} is not equal to it: {y}, {x}")
        check(hash_of(x) == hash_of(y), f"{how} of {name} has another hash")
        if name != "model":
            check(describe(x) == describe(y), lambda: f"{how} of {name} is {describe(y)}, not {describe(x)}")
    # the parts are as good as the original ones
    for x, y in zip(objects["chains"], copies["chains"]):
        check({x: 1}.get(y) == 1, f"{how} of a chain is not found in a dictionary")
        check({x.decay: 1}.get(y.decay) == 1, f"{how} of a node is not found in a dictionary")
        check({x.resonance: 1}.get(y.resonance) == 1, f"{how} of a resonance is not found in a dictionary")
    if "decay" in copies:
        config = DalitzPlotDecompositionBuilder(objects["decay"]).dynamics_choices
        for y in copies["chains"]:
            config.register_builder(y, custom)
        for x, y in zip(objects["chains"], copies["chains"]):
            check(config.get_builder(x) is custom and config.get_builder(y) is custom, f"dynamics registered for {how} of a chain are not found")
    for name in ("intensity", "amplitudes"):
        if name in objects:
            exprs = zip(_values(objects[name])[:3], _values(copies[name])[:3])
            check(all(x.free_symbols == y.free_symbols for x, y in exprs), f"{how} of {name} has other symbols")


def _values(x):
    return list(x.values()) if isinstance(x, dict) else [x]


def answer(question, load):
    """What the helper process does with a case."""
    for before in question["before"]:
        try:
            build_objects(before)
        except Exception:  # noqa: BLE001, S110
            pass
    objects = build_objects(question["case"])
    try:
        compare_copies(objects, load(), "unpickled copy in another process")
    except Violation as e:
        return {"violation": str(e)}
    return {"digests": digests(objects)}


# ---------------------------------------------------------------------- cases
@st.composite
def decay_cases(draw):
    basis = draw(gens.bases())
    decay = draw(gens.decay_cases(
        max_helicities=8, max_resonances=4, need_ls=None if all(basis) else True, max_chains_per_resonance=2,
    ))
    n = len(decay["chains"])
    return {
        "kind": "decay",
        "decay": decay,
        "masses": draw(gens.masses()),
        "basis": basis,
        "reference": draw(st.sampled_from([None, 1, 2, 3])),
        "all_subsystems": draw(st.booleans()),
        "cleanup": draw(st.booleans()),
        "coefficients": draw(st.booleans()),
        "dynamics": draw(st.lists(st.sampled_from(["none", "custom", "breit-wigner"]), min_size=n, max_size=n)),
    }


@st.composite
def with_history(draw, strategy):
    case = draw(strategy)
    before = []
    for _ in range(draw(st.integers(0, 2))):
        other = copy.deepcopy(case)
        change = draw(st.sampled_from(["masses", "basis", "spin", "parity", "reference", "options", "width"]))
        if case["kind"] == "decay":
            if change == "masses":
                other["masses"] = [m + 0.25 for m in other["masses"]]
            elif change == "basis":
                other["basis"] = [not b for b in other["basis"]]
            elif change == "reference":
                other["reference"] = draw(st.sampled_from([None, 1, 2, 3]))
            elif change == "options":
                other["cleanup"], other["coefficients"] = draw(st.booleans()), draw(st.booleans())
            else:
                for c in other["decay"]["chains"]:
                    if change == "spin" and all(x is None for x in (c["prod"], c["dec"])):
                        c["tJ"] += 2
                    elif change == "parity":
                        c["parity"] = 1 if c["parity"] is None else -c["parity"]
                    elif change == "width":
                        c["width"], c["mass"] = c["mass"], c["width"]
        elif case["kind"] == "transitions":
            for p in [*other["states"], *other["resonances"]]:
                p["mass"] += 0.5
                if change == "parity":
                    p["parity"] = 1 if p["parity"] is None else -p["parity"]
        else:
            for r in other["definition"]["resonances"]:
                r["lineshape"]["mass"] += 0.125
                r["lineshape"]["l"] = (r["lineshape"]["l"] + 1) % 4
            other["cleanup"] = not other["cleanup"]
        before.append(other)
    return {"case": case, "before": before}


@st.composite
def transition_cases(draw):
    case = draw(reactions.cases(10, equal_final_states=draw(st.booleans())))
    return {
        **case,
        "kind": "transitions",
        "set": draw(st.booleans()),
        "min_ls": draw(st.booleans()) if case["canonical"] else False,
    }


@st.composite
def definition_cases(draw):
    return {
        "kind": "definition",
        "definition": draw(serial.definitions(max_helicities=8, max_resonances=3, max_chains=6)),
        "cleanup": draw(st.booleans()),
    }


def body(case, ctx):  # noqa: ARG001
    with under_test("building"):
        objects = build_objects(case["case"])
        own = digests(objects)
    with under_test("building again"):
        again = build_objects(case["case"])
    compare_copies(objects, again, "second result")
    with under_test("copy.deepcopy"):
        compare_copies(objects, copy.deepcopy(objects), "deep copy")
    with under_test("pickle"):
        blob = pickle.dumps(objects)
        compare_copies(objects, pickle.loads(blob), "unpickled copy")  # noqa: S301
    for seed in SEEDS:
        before = case["before"] if seed == SEEDS[-1] else []
        try:
            got = peer.get(MODULE, seed).ask({"case": case["case"], "before": before}, blob)
        except BaseException:
            peer.forget()
            raise
        for key in ("violation", "error"):
            if key in got:
                raise Violation(f"in a process with hash seed {seed}: {got[key]}")
        for name, text in own.items():
            check(
                got["digests"][name] == text,
                lambda: f"{name} is {got['digests'][name]} in a process with hash seed {seed}, and {text} here",  # noqa: B023
            )
    # results do not share what can be modified
    spoil(*again.values())
    with under_test("building after a result was modified"):
        check(digests(objects) == own, "a result has changed when another one was modified")
        compare_copies(objects, build_objects(case["case"]), "result after another one was modified")
    return {
        "nontrivial": len(objects["chains"]) > 1,
        "kind": case["case"]["kind"],
        "history": len(case["before"]),
    }


# ----------------------------------------------------------------- lineshapes
def body_lineshape(case, ctx):  # noqa: ARG001
    import c11

    v, _ = c11.values(case)
    kind, n = case["kind"], len(case["channels"])
    massless = case["massless"] and kind == "bw"
    phsp = c11.PHSP[case["phsp"]][0]
    exact = [x for i, x in enumerate(v) if case["m"][i % 4] >> (i // 4) & 1]
    args = {"s": sp.Symbol("s", nonnegative=True), **{x: v[x] if x in exact else c11.symbol(x) for x in v}}
    with under_test("construction"):
        expr = c11.build(kind, args, phsp, massless, n)
    with under_test("copying"):
        copies = {
            "copy": copy.copy(expr),
            "deep copy": copy.deepcopy(expr),
            "unpickled copy": pickle.loads(pickle.dumps(expr)),  # noqa: S301
            "rebuilt": expr.func(*expr.args, **c11.non_sympy(expr)),
        }
        nested = pickle.loads(pickle.dumps({"sum": 1 + 2 * expr}))["sum"]  # noqa: S301
    with under_test("unfolding"):
        ours = unfold(expr, v)
    for how, other in copies.items():
        check(type(other) is type(expr) and other == expr, f"{how} of {expr!r} is {other!r}")
        check(hash(other) == hash(expr), f"{how} of {kind} has another hash")
        check(other.args == expr.args, f"{how} of {kind} has other arguments: {other.args}")
        with under_test(f"unfolding of {how}"):
            theirs = unfold(other, v)
        check(theirs == ours, f"{how} of {kind} unfolds to {theirs}, not {ours}")
    check(nested == 1 + 2 * expr, f"copy of {1 + 2 * expr} is {nested}")
    check(nested.has(type(expr)), f"copy of {1 + 2 * expr} does not contain the lineshape")
    return {"nontrivial": kind != "simple", "kind": kind, "phsp": case["phsp"]}


def unfold(expr, v):
    """Unfold, and then also the sums over dummy indices up to an angular momentum."""
    import c11

    integers = {c11.symbol(x): y for x, y in v.items() if x.startswith("L")}
    return expr.doit().xreplace(integers).doit()


def lineshape_cases():
    import c11

    return c11.cases()


SUBS = [
    Sub("decays", lambda: with_history(decay_cases()), body, 320, 8000, "more than one chain", min_nontrivial=0.4),
    Sub("transitions", lambda: with_history(transition_cases()), body, 400, 10000, "more than one chain", min_nontrivial=0.3),
    Sub("definitions", lambda: with_history(definition_cases()), body, 160, 4000, "more than one chain", min_nontrivial=0.15),
    Sub("lineshapes", lineshape_cases, body_lineshape, 160, 6000, "not the simple Breit-Wigner", min_nontrivial=0.5),
]
ASSUMPTIONS = ["the order in which filter_min_ls returns transitions is not fixed for sets"]
