"""C16: minimal LS selection keeps one chain per resonance with the lowest LS."""

import logging

from hypothesis import strategies as st

from ampform_dpd.adapter.qrules import convert_transitions, filter_min_ls, to_three_body_decay
from vf import reactions
from vf.harness import Sub, check, expect_rejection, under_test

logging.disable(logging.WARNING)

NODE_IDS = [None, [0], [1], [0, 1], []]


@st.composite
def cases(draw):
    case = draw(reactions.cases(max_transitions=12))
    if draw(st.booleans()):  # fewer groups with more couplings
        first = case["transitions"][0]
        case["transitions"] = [
            t for t in case["transitions"] if t["res"] == first["res"] or draw(st.booleans())
        ]
    if case["canonical"] and draw(st.integers(0, 3)) == 0:  # with the couplings of the vertices exchanged
        case["transitions"] = [
            u for t in case["transitions"] for u in (t, {**t, "prod": t["dec"], "dec": t["prod"]})
        ]
    n = len(case["transitions"])
    return {
        **case,
        "node_ids": draw(st.sampled_from(NODE_IDS)),
        "perm": draw(st.permutations(range(n))),
        "raw": draw(st.booleans()),
        "container": draw(st.sampled_from(["tuple", "tuple", "list", "iterator", "set"])),
    }


def build(case, order=None):
    order = range(len(case["transitions"])) if order is None else order
    transitions = [
        reactions.build_transition(case, case["transitions"][n], projections=not case["raw"]) for n in order
    ]
    if case["raw"]:
        # directly from QRules, with the same spin projections everywhere
        return transitions
    converted = {t: convert_transitions([t])[0] for t in transitions}
    return [converted[t] for t in transitions]


CONTAINERS = {"tuple": tuple, "list": list, "iterator": iter, "set": frozenset}


def interaction_key(x):
    if x is None:
        return None
    if hasattr(x, "l_magnitude"):
        return None if x.l_magnitude is None else (x.l_magnitude, int(2 * x.s_magnitude))
    return reactions.ls_key(x)


def particle_key(p):
    return reactions.object_key(p.particle) if hasattr(p, "particle") else reactions.object_key(p)


def key(t):
    """(subsystem and resonance, coupling at node 0, coupling at node 1)."""
    ((rid, resonance),) = t.intermediate_states.items()
    products = frozenset(i for i, e in t.topology.edges.items() if e.originating_node_id == 1)
    name = (products, getattr(resonance, "particle", resonance).name, getattr(resonance, "particle", resonance).mass,
            float(getattr(resonance, "particle", resonance).width), int(2 * getattr(resonance, "particle", resonance).spin),
            getattr(resonance, "particle", resonance).parity)
    return name, interaction_key(t.interactions[0]), interaction_key(t.interactions[1])


def reference(transitions, selected):
    groups: dict = {}
    for t in transitions:
        name, prod, dec = key(t)
        fixed = tuple(x for i, x in enumerate((prod, dec)) if i not in selected)
        groups.setdefault((name, fixed), []).append((prod, dec))
    out = set()
    for (name, _), couplings in groups.items():
        ls = [None if any(c[i] is None for c in couplings) else min(c[i] for c in couplings) for i in (0, 1)]
        for i in (0, 1):
            if i not in selected:
                ls[i] = couplings[0][i]
        out.add((name, *ls))
    return out


def outer(t):
    return {i: s for i, s in t.states.items() if i not in t.intermediate_states}


def body(case, ctx):
    transitions = build(case)
    node_ids = None if case["node_ids"] is None else set(case["node_ids"])
    selected = {0, 1} if node_ids is None else node_ids
    with under_test("filter_min_ls"):
        result = filter_min_ls(CONTAINERS[case["container"]](transitions), node_ids)
    got = [key(t) for t in result]
    expected = reference(transitions, selected)
    check(len(set(got)) == len(got), lambda: f"transitions occur twice: {got}")
    check(set(got) == expected, lambda: f"minimal transitions are {got}, not {expected}")
    for t in result:
        same = [u for u in transitions if key(u)[0] == key(t)[0]]
        check(any(t.topology == u.topology and dict(t.states) == dict(u.states) for u in same), "topology or states have changed")
        check(set(t.interactions) == {0, 1}, "interactions are missing")
    check({key(t)[0] for t in result} == {key(t)[0] for t in transitions}, "a resonance or subsystem is lost")
    with under_test("filter_min_ls of its result"):
        again = filter_min_ls(result, node_ids)
    check(set(again) == set(result), "selection is not idempotent")
    other = build(case, case["perm"])
    with under_test("filter_min_ls in another order"):
        shuffled = filter_min_ls([*other, *other[:1]], node_ids)
    check(set(shuffled) == set(result), "selection depends on the order or repetitions")
    n_groups = len(expected)
    merged = len({key(t) for t in transitions}) > n_groups

    # the same by means of a decay
    dpd = {**case, "raw": True}
    raw = [reactions.build_transition(dpd, t) for t in case["transitions"]]
    min_ls = True if node_ids is None else (0 in node_ids, 1 in node_ids)
    if len(case["numbering"]) and (case["numbering"][0] == 0 or True):
        with under_test("to_three_body_decay with minimal LS"):
            decay = to_three_body_decay(raw, min_ls=min_ls)
            full = to_three_body_decay(raw)
        wanted = set()
        groups: dict = {}
        for c in full.chains:
            k, r, prod, dec = reactions.chain_key(c)
            fixed = tuple(x for i, x in enumerate((prod, dec)) if i not in selected)
            groups.setdefault((k, r, fixed), []).append((prod, dec))
        for (k, r, _), couplings in groups.items():
            ls = [
                None if any(c[i] is None for c in couplings)
                else min(c[i] for c in couplings) if i in selected else couplings[0][i]
                for i in (0, 1)
            ]
            wanted.add((k, r, *ls))
        found = [reactions.chain_key(c) for c in decay.chains]
        check(set(found) == wanted and len(found) == len(wanted), lambda: f"chains are {found}, not {wanted}")
        check(decay.states == full.states, "states have changed")
    return {
        "nontrivial": merged,
        "vertices": str(case["node_ids"]),
        "raw": case["raw"],
        "container": case["container"],
        "canonical": case["canonical"],
        "groups": min(n_groups, 6),
    }


@st.composite
def invalid_cases(draw):
    return {**draw(reactions.cases(2)), "n": draw(st.integers(0, 40)), "node_ids": draw(st.sampled_from(NODE_IDS))}


def body_invalid(case, ctx):
    """Anything without exactly a production and a decay vertex is rejected."""
    from qrules.topology import FrozenTransition, create_isobar_topologies, create_n_body_topology

    good = [reactions.build_transition(case, t) for t in case["transitions"]]
    topologies = [create_n_body_topology(1, n) for n in (2, 3, 4)]
    topologies += [t for n in (4, 5) for t in create_isobar_topologies(n)]
    topology = topologies[case["n"] % len(topologies)]
    state = next(iter(good[0].states.values()))
    bad = FrozenTransition(
        topology,
        states=dict.fromkeys(topology.edges, state),
        interactions=dict.fromkeys(topology.nodes, good[0].interactions[0]),
    )
    node_ids = None if case["node_ids"] is None else set(case["node_ids"])
    for inputs in ([bad], [*good, bad]):
        with expect_rejection(f"decay with {len(topology.edges)} states and {len(topology.nodes)} vertices"):
            filter_min_ls(inputs, node_ids)
    return {"nontrivial": True}


SUBS = [
    Sub("selection", cases, body, 8000, 80000, "a group has more than one coupling", min_nontrivial=0.2),
    Sub("invalid", invalid_cases, body_invalid, 100, 2000, "a transition with one or three or more vertices", shards=4),
]
ASSUMPTIONS = ["transitions directly from QRules have the same spin projections"]
