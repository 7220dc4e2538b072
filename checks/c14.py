"""C14: only valid three-body decays can be built, and accessors agree with them."""

import warnings
from fractions import Fraction

import attrs
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd.decay import (
    IsobarNode,
    LSCoupling,
    Particle,
    State,
    ThreeBodyDecay,
    ThreeBodyDecayChain,
    get_decay_product_ids,
    to_particle,
)
from vf import gens
from vf.harness import Sub, check, expect_rejection, under_test
from vf.interp import two

MASSES = [4.5, 0.9, 0.3, 0.5]


@st.composite
def cases(draw, max_resonances=5):
    return {
        "decay": draw(gens.decay_cases(max_helicities=100, max_resonances=max_resonances, max_chains_per_resonance=3)),
        "spin_form": draw(st.sampled_from(["rational", "float", "fraction", "string"])),
        "ls_form": draw(st.sampled_from(["object", "tuple"])),
        "chain_form": draw(st.sampled_from(["list", "tuple", "generator"])),
        "perm": draw(st.permutations(range(12))),
        "change": draw(st.integers(0, 11)),
        "pick": draw(st.integers(0, 11)),
    }


def spin(two_x, form):
    if form == "float":
        return two_x / 2
    if form == "fraction":
        return Fraction(two_x, 2)
    if form == "string":
        return f"{two_x}/2"
    return sp.Rational(two_x, 2)


def make_states(case):
    d = case["decay"]
    # identical particles are equal up to their index
    same = d.get("same", range(4))
    states = gens.build_states({**d, "parities": [[1, 1, -1, -1][n] for n in same]}, [MASSES[n] for n in same])
    return {
        i: State(
            name=s.name, latex=s.latex, spin=spin(d["spins"][i], case["spin_form"]),
            parity=s.parity, mass=s.mass, width=s.width, index=i,
        )
        for i, s in states.items()
    }


def make_ls(x, form):
    if x is None:
        return None
    if form == "tuple":
        return x[0], x[1] / 2
    return LSCoupling(x[0], sp.Rational(x[1], 2))


def make_chain(c, states, case):
    i, j = gens.PAIR[c["k"]]
    if c["swap"][1]:
        i, j = j, i
    resonance = Particle(
        gens.resonance_name(c), gens.resonance_latex(c), spin(c["tJ"], case["spin_form"]),
        c["parity"], c["mass"], c["width"],
    )
    node = IsobarNode(resonance, states[i], states[j], make_ls(c["dec"], case["ls_form"]))
    children = (states[c["k"]], node) if c["swap"][0] else (node, states[c["k"]])
    return ThreeBodyDecayChain(IsobarNode(states[0], *children, interaction=make_ls(c["prod"], case["ls_form"])))


def ls_key(x):
    return None if x is None else [x.L, two(x.S)]


def make(case):
    states = make_states(case)
    chains = [make_chain(c, states, case) for c in case["decay"]["chains"]]
    as_form = {"list": list, "tuple": tuple, "generator": iter}[case["chain_form"]]
    return states, chains, ThreeBodyDecay(states=states, chains=as_form(chains))


def content(c):
    return (gens.resonance_name(c), c["tJ"], c["parity"], c["mass"], c["width"], c["k"], str(c["prod"]), str(c["dec"]), str(c["swap"]))


def body_valid(case, ctx):  # noqa: PLR0915
    d = case["decay"]
    with under_test("construction of a valid decay"):
        states, chains, decay = make(case)
        check(decay.initial_state == states[0], f"initial state is {decay.initial_state}")
        check(
            dict(decay.final_state) == {i: states[i] for i in (1, 2, 3)},
            lambda: f"final state is {decay.final_state}",
        )
        check(all(isinstance(s.spin, sp.Rational) for s in states.values()), "spins are not exact")
        check([two(decay.states[i].spin) for i in range(4)] == d["spins"], "other spins")
        check(isinstance(decay.chains, tuple) and list(decay.chains) == chains, "other chains")
        for c, chain in zip(d["chains"], decay.chains):
            k = c["k"]
            i, j = gens.PAIR[k]
            products = (j, i) if c["swap"][1] else (i, j)
            check(chain.parent == chain.initial_state == states[0], "parent of the chain")
            check(chain.spectator == states[k], f"spectator is {chain.spectator}, not state {k}")
            check(chain.decay_products == tuple(states[x] for x in products), f"decay products are {chain.decay_products}")
            check(chain.final_state == tuple(states[x] for x in (1, 2, 3)), f"final state is {chain.final_state}")
            r = chain.resonance
            found = (r.name, r.latex, two(r.spin), r.parity, r.mass, r.width)
            want = (gens.resonance_name(c), gens.resonance_latex(c), c["tJ"], c["parity"], c["mass"], c["width"])
            check(found == want, lambda: f"resonance is {found}, not {want}")
            check(to_particle(chain.decay_node) == r and to_particle(r) is r, "to_particle")
            check(chain.production_node is chain.decay, "production node")
            check(set(chain.production_node.children) == {chain.decay_node, chain.spectator}, "children of production")
            check(chain.production_node.children.index(chain.decay_node) == int(c["swap"][0]), "order of children")
            check(ls_key(chain.incoming_ls) == c["prod"], f"incoming LS is {chain.incoming_ls}, not {c['prod']}")
            check(ls_key(chain.outgoing_ls) == c["dec"], f"outgoing LS is {chain.outgoing_ls}, not {c['dec']}")
        # subsystems partition the chains
        collected = []
        for k in (1, 2, 3):
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                sub = decay.get_subsystem(k)
            want = [chain for c, chain in zip(d["chains"], chains) if c["k"] == k]
            check(list(sub.chains) == want, f"subsystem {k} has chains {sub.chains}")
            check(sub.states == decay.states, "states of the subsystem")
            check(bool(caught) == (not want), f"subsystem {k} with {len(want)} chains: {len(caught)} warnings")
            collected.extend(sub.chains)
        check(sorted(map(chains.index, collected)) == sorted(map(chains.index, chains)), "subsystems are no partition")
        for k in (1, 2, 3):
            check(tuple(get_decay_product_ids(k)) == tuple(gens.PAIR[k]), f"decay products of subsystem {k}")
        for k in (-1, 0, 4):
            with expect_rejection(f"decay products of subsystem {k}", ValueError):
                get_decay_product_ids(k)
        names = {gens.resonance_name(c) for c in d["chains"]}
        for name in names:
            found = decay.find_chain(name)
            check(found in chains and found.resonance.name == name, f"chain {found} found for {name}")
    wrong = {"", "x", *(n + " " for n in names), *(n[:-1] for n in names), *(n.swapcase() for n in names), *(gens.resonance_latex(c) for c in d["chains"])}
    for name in sorted(wrong - names):
        with expect_rejection(f"chain lookup for {name!r}"):
            decay.find_chain(name)
    # equality and hash follow the contents
    with under_test("comparison"):
        other_states, other_chains, other = make({**case, "spin_form": "rational", "ls_form": "object", "chain_form": "list"})
        check(other == decay and other.states == decay.states, "decays with the same contents differ")
        for a, b, c in zip(chains, other_chains, d["chains"]):
            check(a == b and hash(a) == hash(b) and not (a != b), "chains with the same contents differ")
            check(a.decay_node == b.decay_node and hash(a.decay_node) == hash(b.decay_node), "nodes differ")
        for m, a in enumerate(chains):
            for n, b in enumerate(chains):
                same = content(d["chains"][m]) == content(d["chains"][n])
                check((a == b) == same, lambda: f"{a} and {b} are {'un' if same else ''}equal")
    reverse = list(reversed(chains))
    if content(d["chains"][0]) != content(d["chains"][-1]):
        check(ThreeBodyDecay(states, reverse) != decay, "decays with different chains are equal")
    # order
    groups: dict = {}
    for c, chain in zip(d["chains"], chains):
        shape = (c["swap"][0], c["prod"] is None, c["dec"] is None, c["parity"] is None)
        groups.setdefault(shape, []).append(chain)
    ordered = 0
    for members in groups.values():
        with under_test("order of chains"):
            shuffled = [members[i % len(members)] for i in case["perm"]]
            shuffled = list(dict.fromkeys(shuffled))
            unique = list(dict.fromkeys(members))
            check(set(shuffled) == set(unique), "hashes do not agree with equality")
            first, second = sorted(unique), sorted(shuffled)
            check(first == second, "sorting depends on the order")
            for a, b in zip(first, first[1:]):
                check(a < b and b > a and a <= b and not b < a and not b <= a, f"{a} and {b} are not in order")
            ordered = max(ordered, len(first))
    return {
        "nontrivial": len(chains) > 1 and max(d["spins"]) > 0,
        "chains": len(chains),
        "subsystems": len({c["k"] for c in d["chains"]}),
        "ordered": ordered > 1,
    }


# ------------------------------------------------------------- invalid input

BAD_SPINS = [sp.Rational(1, 3), 0.3, 0.25, Fraction(3, 4), 1.2, sp.Rational(5, 4), 0.01]


def replaced(chain, **kwargs):
    return ThreeBodyDecayChain(attrs.evolve(chain.decay, **kwargs))


def child_names(node):
    return ("child1", "child2") if isinstance(node.child1, IsobarNode) else ("child2", "child1")


def evolve_state(state, what, n):
    if what == "mass":
        return attrs.evolve(state, mass=state.mass + 0.001 * (n + 1))
    if what == "spin":
        return attrs.evolve(state, spin=state.spin + 1 + n)
    if what == "name":
        return attrs.evolve(state, name=state.name + "x")
    if what == "latex":
        return attrs.evolve(state, latex=state.latex + "x")
    if what == "parity":
        return attrs.evolve(state, parity=None if n % 2 else -state.parity)
    return attrs.evolve(state, width=state.width + 0.5)


INVALID = [
    "spin of particle", "spin of state", "spin of LS", "repeated index", "particle as state",
    "two nodes", "two states", "not a node", "four-body", "interaction type",
    "other initial state", "other final state", "no initial state", "missing final state",
    "repeated id in states", "other index in chain", "shared index",
]


@st.composite
def invalid_cases(draw):
    return {
        **draw(cases(3)),
        "invalid": draw(st.sampled_from(INVALID)),
        "what": draw(st.sampled_from(["mass", "spin", "name", "latex", "parity", "width"])),
        "state": draw(st.integers(0, 3)),
        "n": draw(st.integers(0, 6)),
    }


def body_invalid(case, ctx):  # noqa: C901, PLR0912, PLR0915
    kind, n = case["invalid"], case["n"]
    states, chains, decay = make(case)
    chain = chains[case["pick"] % len(chains)]
    node = chain.decay_node
    node_name, spectator_name = child_names(chain.decay)
    x = 1 + case["state"] % 3  # a final state
    if kind == "spin of particle":
        with expect_rejection(kind):
            attrs.evolve(chain.resonance, spin=BAD_SPINS[n])
    elif kind == "spin of state":
        with expect_rejection(kind):
            attrs.evolve(states[case["state"]], spin=BAD_SPINS[n])
    elif kind == "spin of LS":
        with expect_rejection(kind):
            if case["ls_form"] == "tuple":
                attrs.evolve(node, interaction=(1, BAD_SPINS[n]))
            else:
                LSCoupling(1, BAD_SPINS[n])
    elif kind in {"repeated index", "shared index"}:
        # the spectator, a decay product or the initial state has the index of another state
        if kind == "shared index":
            with expect_rejection(kind):
                replaced(chain, parent=attrs.evolve(states[0], index=x))
        elif n % 2:
            wrong = attrs.evolve(chain.spectator, index=chain.decay_products[n // 2 % 2].index)
            with expect_rejection(kind):
                replaced(chain, **{spectator_name: wrong})
        else:
            indices = [chain.spectator.index, 0, node.child1.index]
            wrong = attrs.evolve(node.child2, index=indices[n // 2 % 3])
            with expect_rejection(kind):
                replaced(chain, **{node_name: attrs.evolve(node, child2=wrong)})
    elif kind == "particle as state":
        def strip(s):
            return Particle(s.name, s.latex, s.spin, s.parity, s.mass, s.width)

        with expect_rejection(kind):
            if n % 4 == 0:
                replaced(chain, parent=strip(states[0]))
            elif n % 4 == 1:
                replaced(chain, **{spectator_name: strip(chain.spectator)})
            else:
                child = f"child{n % 2 + 1}"
                replaced(chain, **{node_name: attrs.evolve(node, **{child: strip(getattr(node, child))})})
    elif kind == "two nodes":
        with expect_rejection(kind):
            replaced(chain, **{spectator_name: node})
    elif kind == "two states":
        with expect_rejection(kind):
            replaced(chain, **{node_name: chain.decay_products[n % 2]})
    elif kind == "not a node":
        wrong = [chain, states[0], "chain", None, 1, [node], chain.resonance][n]
        with expect_rejection(kind):
            ThreeBodyDecayChain(wrong)
    elif kind == "four-body":
        extra = attrs.evolve(states[x], index=4)
        inner = IsobarNode(chain.resonance, node.child1, extra)
        with expect_rejection(kind):
            replaced(chain, **{node_name: attrs.evolve(node, **{f"child{n % 2 + 1}": inner})})
    elif kind == "interaction type":
        wrong = ["S-wave", 1, [1, 0.5], {"L": 1, "S": 0.5}, 0.5, states[0], (1,)][n]
        with expect_rejection(kind):
            attrs.evolve(node, interaction=wrong)
    elif kind == "other initial state":
        wrong = replaced(chain, parent=evolve_state(states[0], case["what"], n))
        at = case["pick"] % len(chains)
        with expect_rejection(kind):
            ThreeBodyDecay(states, [*chains[:at], wrong, *chains[at + 1 :]])
        with expect_rejection(kind):
            ThreeBodyDecay(states, [*chains, wrong])
    elif kind == "other final state":
        if n % 3 == 0:
            wrong = replaced(chain, **{spectator_name: evolve_state(chain.spectator, case["what"], n)})
        else:
            child = f"child{n % 2 + 1}"
            changed = evolve_state(getattr(node, child), case["what"], n)
            wrong = replaced(chain, **{node_name: attrs.evolve(node, **{child: changed})})
        at = case["pick"] % len(chains)
        with expect_rejection(kind):
            ThreeBodyDecay(states, [*chains[:at], wrong, *chains[at + 1 :]])
        with expect_rejection(kind):
            ThreeBodyDecay(states, [*chains, wrong])
    elif kind == "other index in chain":
        wrong = replaced(chain, **{spectator_name: attrs.evolve(chain.spectator, index=4 + n)})
        with expect_rejection(kind):
            ThreeBodyDecay(states, [*chains, wrong])
    elif kind == "no initial state":
        with expect_rejection(kind):
            ThreeBodyDecay({i: s for i, s in states.items() if i != 0}, chains)
    elif kind == "missing final state":
        with expect_rejection(kind):
            ThreeBodyDecay({i: s for i, s in states.items() if i != x}, chains)
    elif kind == "repeated id in states":
        y = 1 + x % 3
        with expect_rejection(kind):
            ThreeBodyDecay({**states, x: attrs.evolve(states[x], index=y)}, chains)
    else:
        raise NotImplementedError(kind)
    check(chain == chains[case["pick"] % len(chains)], "the chain has changed")
    return {"nontrivial": True, "invalid": kind}


SUBS = [
    Sub("valid", cases, body_valid, 3000, 30000, "several chains and a spin", min_nontrivial=0.3),
    Sub("invalid", invalid_cases, body_invalid, 3000, 40000, "an inconsistency of one of the kinds in the labels"),
]
ASSUMPTIONS = ["chains are ordered by their contents if they have the same shape (same order of spectator and isobar, LS and parity known in both or in none)"]
