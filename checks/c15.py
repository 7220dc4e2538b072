"""C15: conversion of QRules transitions is lossless and independent of their order."""

import functools
import logging
from fractions import Fraction
from pathlib import Path

import qrules
import yaml
from hypothesis import strategies as st
from qrules.quantum_numbers import InteractionProperties
from qrules.topology import (
    Edge,
    FrozenTransition,
    Topology,
    create_isobar_topologies,
    create_n_body_topology,
)
from qrules.transition import ReactionInfo, State

import ampform_dpd
from ampform_dpd.adapter.qrules import convert_transitions, load_particles, to_three_body_decay
from vf import reactions
from vf.harness import Sub, check, expect_rejection, under_test

logging.disable(logging.WARNING)


NUMBERINGS = [[-1, 0, 1, 2, 3], [0, 1, 2, 3, 4], [0, 1, 2, 3, 77], [-20, -10, 0, 10, 20]]


@st.composite
def cases(draw):
    case = draw(reactions.cases(name_twins=True))
    n = len(case["transitions"])
    containers = ["list", "tuple", "generator"]
    if not case["name_twins"]:
        containers += ["set", "reaction"]
    return {
        **case,
        "perm": draw(st.permutations(range(n))),
        "repeat": draw(st.lists(st.integers(0, n - 1), max_size=4)),
        "other_projections": draw(st.lists(st.lists(st.integers(0, 7), min_size=5, max_size=5), min_size=n, max_size=n)),
        # one numbering for all transitions, or (in one third of the cases) several
        "other_numberings": draw(st.lists(st.sampled_from(NUMBERINGS), min_size=1, max_size=draw(st.sampled_from([1, 1, 4])))),
        "other_reversed": [draw(st.booleans()), draw(st.booleans())],
        "container": draw(st.sampled_from(containers)),
    }


def contain(transitions, case):
    kind = case["container"]
    if kind == "generator":
        return iter(transitions)
    if kind == "set":
        return set(transitions)
    if kind == "reaction":
        formalism = "canonical-helicity" if case["canonical"] else "helicity"
        return ReactionInfo(transitions, formalism=formalism).transitions
    return {"list": list, "tuple": tuple}[kind](transitions)


def body(case, ctx):
    transitions = [reactions.build_transition(case, t) for t in case["transitions"]]
    with under_test("conversion"):
        decay = to_three_body_decay(contain(transitions, case))
    expected = {reactions.expected_key(case, t) for t in case["transitions"]}
    got = [reactions.chain_key(c) for c in decay.chains]
    check(len(set(got)) == len(got), lambda: f"chains occur twice: {got}")
    check(set(got) == expected, lambda: f"chains are {sorted(map(str, got))}, not {sorted(map(str, expected))}")
    states = {i: reactions.object_key(s) for i, s in decay.states.items()}
    want = {i: reactions.particle_key(p, i) for i, p in enumerate(case["states"])}
    check(states == want, lambda: f"states are {states}, not {want}")
    for chain in decay.chains:
        check(
            {reactions.object_key(s) for s in (chain.parent, chain.spectator, *chain.decay_products)} == set(want.values()),
            "outer states of a chain",
        )
        for p in (chain.resonance, *decay.states.values()):
            check(p.parity is None or type(p.parity) is int, f"parity {p.parity!r} of {p.name}")

    # another order, with repetitions, other spin projections and other numbers
    numberings = case["other_numberings"]
    again = [
        reactions.build_transition(
            {**case, "reversed": case["other_reversed"], "numbering": numberings[m % len(numberings)]},
            {**case["transitions"][n], "projections": case["other_projections"][n]},
        )
        for m, n in enumerate([*case["perm"], *case["repeat"]])
    ]
    with under_test("conversion in another order"):
        decay2 = to_three_body_decay(again)
    check(decay2.chains == decay.chains, "chains depend on the order, repetition, projections or numbering")
    check(decay2 == decay and decay2.states == decay.states, "decay depends on the order or numbering")
    # conversion of what is already converted
    dpd = {**case, "numbering": [0, 1, 2, 3, 4]}
    raw = [reactions.build_transition(dpd, t) for t in case["transitions"]]
    with under_test("convert_transitions"):
        converted = convert_transitions(raw)
        check(len(converted) == len(expected), f"{len(converted)} converted transitions for {len(expected)} chains")
        check(convert_transitions(converted) == converted, "conversion is not idempotent")
        check(convert_transitions(list(reversed(raw))) == converted, "order of converted transitions")
        check(to_three_body_decay(converted) == decay, "decay of converted transitions")
    return {
        "nontrivial": len(expected) > 1,
        "canonical": case["canonical"],
        "subsystems": len({k for k, *_ in expected}),
        "repetitions": len(expected) < len(transitions),
        "container": case["container"],
        "numberings": len({tuple(x) for x in numberings[: len(again)]}),
        "equal but for their name": case["name_twins"],
        "no parity": any(p["parity"] is None for p in [*case["states"], *case["resonances"]]),
    }


INVALID = ["empty", "two-body", "four-body", "one node", "two initial states", "other initial state", "other final state"]


@st.composite
def invalid_cases(draw):
    return {
        **draw(reactions.cases(3)),
        "invalid": draw(st.sampled_from(INVALID)),
        "n": draw(st.integers(0, 2)),
        "min_ls": draw(st.sampled_from([False, True, [True, False], [False, True]])),
        "alone": draw(st.booleans()),
    }


def body_invalid(case, ctx):
    kind, n = case["invalid"], case["n"]
    good = [reactions.build_transition(case, t) for t in case["transitions"]]
    some = State(reactions.build_particle(case["states"][n + 1], 1), Fraction(case["states"][n + 1]["two_spin"], 2))
    interaction = InteractionProperties(l_magnitude=0, s_magnitude=0) if case["canonical"] else InteractionProperties()
    if kind in {"two-body", "four-body", "one node", "two initial states"}:
        if kind == "two-body":
            topology = create_n_body_topology(1, 2)
        elif kind == "four-body":
            options = create_isobar_topologies(4)
            topology = options[n % len(options)]
        elif kind == "one node":
            topology = create_n_body_topology(1, 3)
        else:
            topology = Topology({0, 1}, {
                -2: Edge(None, 0), -1: Edge(None, 0), 3: Edge(0, 1),
                0: Edge(0, None), 1: Edge(1, None), 2: Edge(1, None),
            })
        bad = FrozenTransition(
            topology,
            states=dict.fromkeys(topology.edges, some),
            interactions=dict.fromkeys(topology.nodes, interaction),
        )
    elif kind in {"other initial state", "other final state"}:
        x = 0 if kind == "other initial state" else n + 1
        states = [dict(p) for p in case["states"]]
        states[x]["mass"] += 0.5
        bad = reactions.build_transition({**case, "states": states}, case["transitions"][0])
    min_ls = case["min_ls"] if isinstance(case["min_ls"], bool) else tuple(case["min_ls"])
    if kind == "empty":
        inputs = [[], iter(())][n % 2]
    elif kind.startswith("other"):
        inputs = [*good, bad]
    else:
        inputs = [bad] if case["alone"] else [*good, bad]
    with expect_rejection(f"{kind} decay"):
        to_three_body_decay(inputs, min_ls=min_ls)
    return {"nontrivial": True, "invalid": kind}


# ------------------------------------------------------ particles of the database
@functools.cache
def database():
    """What `load_particles` has to return, by name."""
    expected = {p.name: p for p in qrules.load_default_particles()}
    (path,) = Path(ampform_dpd.__file__).parent.rglob("particle-definitions.yml")
    shipped = yaml.safe_load(path.read_text())["particles"]
    with under_test("load_particles"):
        got = {p.name: p for p in load_particles()}
    return expected, shipped, got


@st.composite
def database_cases(draw):
    n = st.integers(0, 10**6)
    return {
        "names": draw(st.lists(n, min_size=5, max_size=5)),
        "shipped": draw(st.one_of(st.none(), st.tuples(st.integers(0, 4), n).map(list))),
        "k": draw(st.integers(1, 3)),
        "ls": draw(st.one_of(st.none(), st.lists(st.integers(0, 6), min_size=4, max_size=4))),
    }


def body_database(case, ctx):
    default, shipped, got = database()
    overridden = {d["name"] for d in shipped}
    check(
        set(got) == set(default) | overridden,
        lambda: f"names of loaded particles: {set(got) ^ (set(default) | overridden)} missing or in excess",
    )
    names = sorted(set(default) - overridden)
    chosen = [names[n % len(names)] for n in case["names"]]
    if case["shipped"] is not None:
        x, n = case["shipped"]
        chosen[x] = shipped[n % len(shipped)]["name"]
    particles = [got[name] for name in chosen]
    keys = []
    for name, p in zip(chosen, particles):
        if name in overridden:
            d = next(d for d in shipped if d["name"] == name)
            parity = d.get("parity")
            key = (name, d.get("latex") or name, int(2 * d["spin"]), parity and parity["value"], d["mass"], d.get("width", 0))
        else:
            check(p == default[name], lambda: f"{name} of the database is {p}, not {default[name]}")
            q = default[name]
            key = (name, q.latex or name, int(2 * q.spin), None if q.parity is None else int(q.parity), q.mass, q.width)
        keys.append(key)
    ls = case["ls"]

    def interaction(n):
        if ls is None:
            return InteractionProperties()
        return InteractionProperties(l_magnitude=ls[2 * n], s_magnitude=Fraction(ls[2 * n + 1], 2))

    transition = FrozenTransition(
        reactions.topology(case["k"], [0, 1, 2, 3, 4]),
        states={n: State(p, p.spin) for n, p in enumerate(particles)},
        interactions={0: interaction(0), 1: interaction(1)},
    )
    with under_test(f"conversion of a decay of {chosen}"):
        decay = to_three_body_decay([transition])
    got_states = {i: reactions.object_key(s) for i, s in decay.states.items()}
    want = {i: (*key, i) for i, key in enumerate(keys[:4])}
    check(got_states == want, lambda: f"states are {got_states}, not {want}")
    check(len(decay.chains) == 1, "more than one chain")
    chain = reactions.chain_key(decay.chains[0])
    want = (case["k"], keys[4], None if ls is None else (ls[0], ls[1]), None if ls is None else (ls[2], ls[3]))
    check(chain == want, lambda: f"chain is {chain}, not {want}")
    return {"nontrivial": True, "shipped with the package": case["shipped"] is not None, "LS": ls is not None}


SUBS = [
    Sub("conversion", cases, body, 6000, 80000, "more than one chain", min_nontrivial=0.4),
    Sub("database", database_cases, body_database, 400, 8000, "five particles of the database", min_nontrivial=0.4),
    Sub("invalid", invalid_cases, body_invalid, 300, 6000, "one of the kinds in the labels"),
]
ASSUMPTIONS = [
    "as in QRules: edge ids increase from the initial state over the final states to the intermediate state, node 0 is the production node",
    "all transitions have LS couplings or none has",
]

