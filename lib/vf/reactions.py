"""QRules transitions from JSON-like cases."""

from __future__ import annotations

from fractions import Fraction

from hypothesis import strategies as st

from vf import gens, phys

NAMES = ["A", "B(10)0", "C+", "K~0"]
LATEXES = [None, R"B_{10}^0", "C^+", None]
RES_NAMES = ["N(1)+", "Lambda(2)", "X", "Y~0"]


@st.composite
def particle(draw, n, two_spin, resonance=False):
    return {
        "name": (RES_NAMES if resonance else NAMES)[n],
        "latex": draw(st.sampled_from([None, f"R_{{{n}}}"])) if resonance else draw(st.sampled_from([LATEXES[n], None])),
        "two_spin": two_spin,
        "parity": draw(st.sampled_from([None, 1, -1])),
        "mass": draw(st.integers(0, 5000)) / 1000,
        "width": draw(st.integers(0, 900)) / 1000,
        "charge": n,  # particles with equal quantum numbers are equal in QRules
    }


@st.composite
def cases(draw, max_transitions=8, equal_final_states=False, name_twins=False, state_twins=False):
    spins = draw(gens.spin_choices(40))
    equal = draw(st.sampled_from([[], [1, 2], [2, 3], [1, 3], [1, 2, 3]])) if equal_final_states else []
    for i in equal:
        spins = [*spins[:i], spins[equal[0]], *spins[i + 1 :]]
    if sum(spins) % 2:
        spins = [spins[0] ^ 1, *spins[1:]]
    states = [draw(particle(i, spins[i])) for i in range(4)]
    for i in equal:
        states[i] = states[equal[0]]
    if equal_final_states and draw(st.integers(0, 3)) == 0:  # different states with the same LaTeX code
        for i in {0, 1, 2, 3} - set(equal):
            states[i] = {**states[i], "latex": "x"}
        for i in equal:
            states[i] = {**states[i], "latex": "x"}
    if (name_twins or state_twins) and not equal and draw(st.integers(0, 3)) == 0:  # states that differ in their name only
        i, j = draw(st.sampled_from([(0, 1), (1, 2), (2, 3), (1, 3)]))
        if spins[i] == spins[j]:
            states[j] = {**states[i], "name": states[j]["name"], "latex": states[j]["latex"]}
    canonical = draw(st.sampled_from([True, True, False]))
    n_res = draw(st.integers(1, 4))
    resonances = []
    for r in range(n_res):
        # fermion or boson, so that it can be in some subsystem
        k = draw(st.integers(1, 3))
        two_j = draw(st.sampled_from([t for t in range(7) if (t + spins[0] + spins[k]) % 2 == 0]))
        resonances.append(draw(particle(r, two_j, resonance=True)))
    # resonances that differ in one property only
    if n_res > 1 and draw(st.integers(0, 2)) == 0:
        # QRules does not compare names, so only lists can hold particles that differ in their name
        what = draw(st.sampled_from(["mass", "width", "two_spin", *(["name"] if name_twins else [])]))
        twin = dict(resonances[0])
        if what == "name":
            twin |= {"name": resonances[1]["name"], "latex": resonances[1]["latex"]}
        else:
            twin[what] = twin[what] + (2 if what == "two_spin" else 0.125)
        resonances[1] = twin
        name_twins = what == "name"
    else:
        name_twins = False
    options = []
    for r, res in enumerate(resonances):
        for k in (1, 2, 3):
            i, j = gens.PAIR[k]
            prod = phys.allowed_ls(spins[0], res["two_spin"], spins[k], 4)
            dec = phys.allowed_ls(res["two_spin"], spins[i], spins[j], 4)
            if not prod or not dec:
                continue
            options.append((r, k, prod, dec))
    if not options:
        # total spin is even, so a resonance of the right kind with enough spin decays
        k = 1
        two_j = spins[0] + spins[1]
        prod = [(0, two_j)] if False else phys.allowed_ls(spins[0], two_j, spins[1], 6)
        dec = phys.allowed_ls(two_j, spins[2], spins[3], 12)
        resonances[0] = {**resonances[0], "two_spin": two_j}
        options = [(0, k, prod, dec)]
    transitions = []
    for _ in range(draw(st.integers(1, max_transitions))):
        r, k, prod, dec = draw(st.sampled_from(options))
        transitions.append({
            "res": r,
            "k": k,
            "prod": list(draw(st.sampled_from(prod))) if canonical else None,
            "dec": list(draw(st.sampled_from(dec))) if canonical else None,
            "projections": draw(st.lists(st.integers(0, 7), min_size=5, max_size=5)),
        })
    return {
        "states": states,
        "resonances": resonances,
        "name_twins": name_twins,
        "transitions": transitions,
        "canonical": canonical,
        "numbering": draw(st.sampled_from([[-1, 0, 1, 2, 3], [0, 1, 2, 3, 4], [0, 1, 2, 3, 9], [-7, -3, 2, 5, 11], [1, 2, 3, 4, 5], [0, 2, 4, 6, 8]])),
        "reversed": [draw(st.booleans()), draw(st.booleans())],
    }


_PARTICLES: dict = {}


def build_particle(p, pid):
    import qrules

    key = (tuple(sorted((k, repr(v)) for k, v in p.items())), pid)
    if key not in _PARTICLES:
        if len(_PARTICLES) > 1000:
            _PARTICLES.clear()
        _PARTICLES[key] = qrules.particle.Particle(
            name=p["name"],
            pid=pid,
            latex=p["latex"],
            spin=Fraction(p["two_spin"], 2),
            mass=p["mass"],
            width=p["width"],
            parity=p["parity"],
            charge=p["charge"],
        )
    return _PARTICLES[key]


def topology(k: int, numbering):
    """Isobar topology with spectator k, with edges [initial, 1, 2, 3, resonance]."""
    from qrules.topology import Edge, FrozenDict, Topology

    initial, *final, resonance = numbering
    edges = {initial: Edge(None, 0), resonance: Edge(0, 1)}
    for i, n in enumerate(final, 1):
        edges[n] = Edge(0 if i == k else 1, None)
    return Topology(nodes={0, 1}, edges=FrozenDict(edges))


def build_transition(case, t, numbering=None, projections=True):
    from qrules.quantum_numbers import InteractionProperties
    from qrules.topology import FrozenTransition
    from qrules.transition import State

    numbering = numbering or case["numbering"]
    particles = [*case["states"], case["resonances"][t["res"]]]
    states = {}
    for n, p, x in zip(numbering, particles, t["projections"]):
        particle = build_particle(p, 1)
        if not projections:
            x = 0
        states[n] = State(particle, Fraction(p["two_spin"] - 2 * (x % (p["two_spin"] + 1)), 2))
    if case["reversed"][0]:
        states = dict(reversed(states.items()))

    def interaction(ls):
        if ls is None:
            return InteractionProperties()
        return InteractionProperties(
            l_magnitude=ls[0], l_projection=0, s_magnitude=Fraction(ls[1], 2),
            s_projection=Fraction(ls[1] % 2, 2),
        )

    interactions = {0: interaction(t["prod"]), 1: interaction(t["dec"])}
    if case["reversed"][1]:
        interactions = dict(reversed(interactions.items()))
    return FrozenTransition(topology(t["k"], numbering), states, interactions)


def particle_key(p, index=None):
    """Contents of a particle of a case, as in `object_key`."""
    key = (p["name"], p["latex"] or p["name"], p["two_spin"], p["parity"], p["mass"], p["width"])
    return key if index is None else (*key, index)


def object_key(p):
    key = (p.name, p.latex, int(2 * p.spin), p.parity, p.mass, p.width)
    return (*key, p.index) if hasattr(p, "index") else key


def ls_key(x):
    return None if x is None else (int(x.L), int(2 * x.S))


def chain_key(chain):
    return (
        chain.spectator.index,
        object_key(chain.resonance),
        ls_key(chain.incoming_ls),
        ls_key(chain.outgoing_ls),
    )


def expected_key(case, t):
    return (
        t["k"],
        particle_key(case["resonances"][t["res"]]),
        None if t["prod"] is None else tuple(t["prod"]),
        None if t["dec"] is None else tuple(t["dec"]),
    )
