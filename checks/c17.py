"""C17: relabelling ids and permuting equal final states preserve the transitions."""

import logging
from itertools import permutations

from hypothesis import strategies as st
from qrules.topology import (
    FrozenDict,
    FrozenTransition,
    MutableTransition,
    Topology,
    create_isobar_topologies,
    create_n_body_topology,
)
from qrules.transition import ProblemSet, ReactionInfo

from ampform_dpd.adapter.qrules import (
    convert_transitions,
    normalize_state_ids,
    permute_equal_final_states,
    to_three_body_decay,
)
from vf import reactions
from vf.harness import Sub, check, expect_rejection, under_test

logging.disable(logging.WARNING)

_TOPOLOGIES = [t for n in (2, 3, 4, 5) for t in create_isobar_topologies(n)]
_TOPOLOGIES += [create_n_body_topology(1, n) for n in (2, 3, 4)] + [create_n_body_topology(2, 2), create_n_body_topology(3, 1)]
KINDS = ["topology", "frozen", "mutable", "problemset", "reaction", "list", "generator", "nested"]


@st.composite
def relabel_cases(draw):
    graphs = draw(st.lists(
        st.tuples(
            st.integers(0, len(_TOPOLOGIES) - 1),
            st.lists(st.integers(-40, 40), min_size=12, max_size=12, unique=True),
            st.booleans(),
        ),
        min_size=1, max_size=4,
    ))
    return {"kind": draw(st.sampled_from(KINDS)), "graphs": [list(g) for g in graphs], "reaction": draw(reactions.cases(5))}


def relabelled(n, ids, backwards):
    topology = _TOPOLOGIES[n]
    mapping = dict(zip(sorted(topology.edges), ids))
    edges = {mapping[i]: e for i, e in topology.edges.items()}
    if backwards:
        edges = dict(reversed(edges.items()))
    return Topology(topology.nodes, FrozenDict(edges))


def check_topology(old, new):
    check(isinstance(new, Topology), f"topology became a {type(new)}")
    check(sorted(new.edges) == list(range(len(old.edges))), f"edge ids are {sorted(new.edges)}")
    check(new.nodes == old.nodes, "nodes have changed")
    for n, i in enumerate(sorted(old.edges)):
        check(new.edges[n] == old.edges[i], f"edge {i} became {new.edges[n]}")


def check_transition(old, new):
    check(type(new) is type(old), f"{type(old)} became a {type(new)}")
    check_topology(old.topology, new.topology)
    check(sorted(new.states) == list(range(len(old.states))), f"state ids are {sorted(new.states)}")
    for n, i in enumerate(sorted(old.states)):
        check(new.states[n] == old.states[i], f"state {i} became {new.states[n]}")
    check(dict(new.interactions) == dict(old.interactions), "interactions have changed")


def body_normalize(case, ctx):  # noqa: C901
    kind = case["kind"]
    topologies = [relabelled(*g) for g in case["graphs"]]
    sequential = all(sorted(t.edges) == list(range(len(t.edges))) for t in topologies)
    frozen = [
        FrozenTransition(t, {i: f"state {i}" for i in t.edges}, {i: f"node {i}" for i in t.nodes})
        for t in topologies
    ]
    if kind == "topology":
        obj, checker = topologies[0], check_topology
    elif kind == "frozen":
        obj, checker = frozen[0], check_transition
    elif kind == "mutable":
        obj, checker = frozen[0].unfreeze(), check_transition
    elif kind == "problemset":
        obj = ProblemSet(topologies[0], frozen[0].unfreeze(), MutableTransition(
            topologies[0], {i: f"settings {i}" for i in topologies[0].edges}, {i: f"n{i}" for i in topologies[0].nodes}
        ))

        def checker(old, new):
            check(type(new) is ProblemSet, "no problem set")
            check_topology(old.topology, new.topology)
            check_transition(old.initial_facts, new.initial_facts)
            check_transition(old.solving_settings, new.solving_settings)
    elif kind == "reaction":
        formalism = "canonical-helicity" if case["reaction"]["canonical"] else "helicity"
        transitions = [reactions.build_transition(case["reaction"], t) for t in case["reaction"]["transitions"]]
        obj = ReactionInfo(transitions, formalism=formalism)
        sequential = case["reaction"]["numbering"] == [0, 1, 2, 3, 4]

        def checker(old, new):
            check(type(new) is ReactionInfo and new.formalism == old.formalism, "no reaction")
            check(len(new.transitions) == len(old.transitions), "number of transitions")
            mapped = [normalize_state_ids(t) for t in old.transitions]
            for a, b in zip(old.transitions, mapped):
                check_transition(a, b)
            check(sorted(mapped) == sorted(new.transitions), "transitions of the reaction")
            check(
                [new.initial_state[i] for i in sorted(new.initial_state)] + [new.final_state[i] for i in sorted(new.final_state)]
                == [old.initial_state[i] for i in sorted(old.initial_state)] + [old.final_state[i] for i in sorted(old.final_state)],
                "particles of the reaction",
            )
            check(set(new.initial_state) | set(new.final_state) == {0, 1, 2, 3} , f"ids {set(new.initial_state)}, {set(new.final_state)}")
    else:
        obj = frozen if kind != "nested" else [frozen, frozen[:1]]

        def checker(old, new):
            check(isinstance(new, list) and len(new) == len(old), f"{len(old)} transitions became {len(new)}")
            for a, b in zip(old, new):
                (checker if isinstance(a, list) else check_transition)(a, b)
    before = [dict(f.states) for f in frozen], [dict(t.edges) for t in topologies]
    with under_test("normalize_state_ids"):
        new = normalize_state_ids(iter(obj) if kind == "generator" else obj)
    checker(obj, new)
    with under_test("normalize_state_ids of its result"):
        again = normalize_state_ids(new)
    if kind in {"mutable", "problemset"}:
        checker(new, again)
    else:
        check(again == new, "normalisation is not idempotent")
    check(before == ([dict(f.states) for f in frozen], [dict(t.edges) for t in topologies]), "the input has changed")
    for wrong in (1, 2.5, None):
        with expect_rejection("normalisation of a number"):
            normalize_state_ids(wrong)
    return {"nontrivial": not sequential, "kind": kind, "graphs": len(topologies)}


# ----------------------------------------------------------------- permutations


@st.composite
def permute_cases(draw):
    return {
        **draw(reactions.cases(5, equal_final_states=True, state_twins=True)),
        "kind": draw(st.sampled_from(["single", "single", "list", "generator", "reaction", "converted"])),
    }


def swap(transition, mapping):
    """Exchange ids in the graph; the states keep their ids."""
    edges = {mapping.get(i, i): e for i, e in transition.topology.edges.items()}
    return FrozenTransition(
        Topology(transition.topology.nodes, FrozenDict(edges)), transition.states, transition.interactions
    )


def orbit(transition):
    ids: dict = {}
    for i, s in transition.final_states.items():
        ids.setdefault(getattr(s, "particle", s).name, []).append(i)
    out = [transition]
    for group in ids.values():
        out = [swap(t, dict(zip(group, p))) for t in out for p in permutations(group)]
    return set(out)


def body_permute(case, ctx):
    kind = case["kind"]
    transitions = [reactions.build_transition(case, t) for t in case["transitions"]]
    n_equal = 4 - len({p["name"] for p in case["states"][1:]})
    formalism = "canonical-helicity" if case["canonical"] else "helicity"
    if kind == "converted":
        dpd = {**case, "numbering": [0, 1, 2, 3, 4]}
        transitions = list(convert_transitions(reactions.build_transition(dpd, t) for t in case["transitions"]))
    expected = set().union(*(orbit(t) for t in transitions))
    with under_test("permute_equal_final_states"):
        if kind == "single":
            result = permute_equal_final_states(transitions[0])
            expected = orbit(transitions[0])
            check(len(set(result)) == len(result), "a transition occurs twice")
        elif kind == "reaction":
            reaction = permute_equal_final_states(ReactionInfo(transitions, formalism=formalism))
            check(isinstance(reaction, ReactionInfo) and reaction.formalism == formalism, f"result is {type(reaction)}")
            result = reaction.transitions
        else:
            result = permute_equal_final_states(iter(transitions) if kind == "generator" else transitions)
    got = set(result)
    check(set(transitions if kind != "single" else transitions[:1]) <= got, "an original transition is lost")
    check(
        got == expected,
        lambda: f"{len(got - expected)} unexpected and {len(expected - got)} missing transitions of {len(expected)}",
    )
    with under_test("permutation of the result"):
        again = permute_equal_final_states(list(result))
    check(set(again) == got, "the result is not closed under exchange of equal final states")
    if kind != "single" and case["numbering"][:4] != [0, 1, 2, 3]:
        with under_test("normalisation"):
            a = {normalize_state_ids(t) for t in result}
            b = set(permute_equal_final_states([normalize_state_ids(t) for t in transitions]))
        check(a == b, "permutation depends on the numbering")
    # the decay has every chain for each of the equal particles
    with under_test("decay of permuted transitions"):
        decay = to_three_body_decay(result)
    equal = {i for i in (1, 2, 3) if [p["name"] for p in case["states"][1:]].count(case["states"][i]["name"]) > 1}
    want = set()
    for t in case["transitions"][: 1 if kind == "single" else None]:
        for k in equal if t["k"] in equal else {t["k"]}:
            want.add(reactions.expected_key(case, {**t, "k": k}))
    found = [reactions.chain_key(c) for c in decay.chains]
    check(set(found) == want and len(found) == len(want), lambda: f"chains are {found}, not {want}")
    return {
        "nontrivial": len(expected) > len(set(transitions)),
        "equal final states": n_equal,
        "kind": kind,
    }


SUBS = [
    Sub("normalize", relabel_cases, body_normalize, 6000, 60000, "ids are not 0..N-1 already", min_nontrivial=0.5),
    Sub("permute", permute_cases, body_permute, 6000, 60000, "there are transitions to add", min_nontrivial=0.2),
]
ASSUMPTIONS = ["final-state particles are identical if they have the same name; three final-state particles"]
