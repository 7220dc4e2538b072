"""Hypothesis strategies for JSON-like cases, and the objects built from them."""

from __future__ import annotations

import hashlib
from itertools import product

from hypothesis import strategies as st

from vf import phys

PAIR = phys.CYCLIC

# ---------------------------------------------------------------- kinematics


def masses(massless: bool = False):
    """[m0, m1, m2, m3] in GeV with m0 above threshold."""
    light = st.integers(50, 1500)

    def build(t):
        m1, m2, m3, q, equal, zero = t
        m2, m3 = m2 * 107 // 100 + 3, m3 * 93 // 100 + 11  # not the same by default
        if equal == 1:
            m2 = m1
        elif equal == 2:
            m3 = m2
        elif equal == 3:
            m2 = m3 = m1
        m1, m2, m3 = (0 if zero >> n & 1 else m for n, m in enumerate((m1, m2, m3)))
        return [x / 1000 for x in (m1 + m2 + m3 + q, m1, m2, m3)]

    return st.tuples(
        light, light, light, st.integers(100, 3000), st.sampled_from([0, 0, 0, 1, 2, 3]),
        st.sampled_from([0, 0, 0, 0, 1, 2, 4, 6]) if massless else st.just(0),
    ).map(build)


def points(min_size=1, max_size=3):
    p = st.tuples(st.integers(3, 97), st.integers(-96, 96)).map(lambda t: [t[0] / 100, t[1] / 100])
    return st.lists(p, min_size=min_size, max_size=max_size)


LIGHT = [0.000511, 0.004, 0.02]
UNITS = [1, 1, 1, 1000, 0.001]


@st.composite
def scaled_kinematics(draw, min_size=1, max_size=3, massless=False):
    """Also with very light final states, and in other units than GeV."""
    case = draw(kinematics(min_size, max_size, massless))
    m0, *m = case["masses"]
    q = m0 - sum(m)
    light = draw(st.sampled_from([0, 0, 0, 1, 2, 4, 3, 6]))
    m = [LIGHT[n] if light >> n & 1 and x else x for n, x in enumerate(m)]
    unit = draw(st.sampled_from(UNITS))
    return {**case, "masses": [x * unit for x in (sum(m) + q, *m)]}


def kinematics(min_size=1, max_size=3, massless=False):
    return st.fixed_dictionaries({
        "masses": masses(massless),
        "points": points(min_size, max_size),
        "pair": st.sampled_from([3, 1, 2]),
    })


def build_kinematics(case) -> phys.Kinematics:
    return phys.Kinematics(case["masses"], case["points"], case["pair"])


# -------------------------------------------------------------------- decays

MAX_TWO_SPIN = 9


def spin_combinations(max_helicities: int, max_two_spin: int = MAX_TWO_SPIN):
    combos = []
    for s in product(range(max_two_spin + 1), range(6), range(6), range(6)):
        if sum(s) % 2:
            continue
        n = 1
        for t in s:
            n *= t + 1
        if n <= max_helicities:
            combos.append(list(s))
    combos.sort(key=lambda s: (sum(s), s))
    return combos


_COMBOS: dict = {}


def spin_choices(max_helicities: int):
    """[2*J0, 2*J1, 2*J2, 2*J3], with equal weight for each initial spin and number of spinless states.

    Spins above 5/2 are less frequent.
    """
    if max_helicities not in _COMBOS:
        groups: dict = {}
        for c in spin_combinations(max_helicities):
            n_spinless = c[1:].count(0)
            groups.setdefault((c[0], n_spinless), []).append(c)
        _COMBOS[max_helicities] = groups
    groups = _COMBOS[max_helicities]
    low = [g for g in sorted(groups) if g[0] <= 5]
    return st.sampled_from([*low, *low, *sorted(groups)]).flatmap(lambda g: st.sampled_from(groups[g]))


NAMES = [
    ["R1", "Lambda(1520)", "K*(892)0", "N(1650)+"],
    ["K(1)", "K(1)0", "k(1)", "K(10)"],
    ["a b", "Δ(1232)~++", R"a\b", "a_b"],
    ["p", "Lc", "K-", ""],  # also names of final and initial states
    ["f(0)(980)", "f(0) (980)", "F(0)(980)", "f(0)(980)+"],
    ["a(1)", "a(1)(1260)", "a(1)(126)", "a(1)(1260)~"],
]
LATEX = [
    ["R_1", R"\Lambda(1520)", "K^{*}(892)^{0}", "N(1650)^{+}"],
    ["K(1)", "K(1)^{0}", "k(1)", "K(10)"],
    [R"a\,b", R"\overline{\Delta}(1232)^{++}", R"a\backslash{b}", "a_{b}"],
    ["p", R"\Lambda_{c}^{+}", "K^{-}", "X"],
    ["f_{0}(980)", "f_{0} (980)", "F_{0}(980)", "f_{0}(980)^{+}"],
    ["a_{1}", "a_{1}(1260)", "a_{1}(126)", R"\overline{a}_{1}(1260)"],
]
STATE_NAMES = ["Lc", "p", "pi+", "K-"]
STATE_LATEX = [R"\Lambda_c^+", "p", R"\pi^+", "K^-"]


@st.composite
def decay_cases(
    draw,
    max_helicities: int = 24,
    max_resonances: int = 3,
    max_chains_per_resonance: int = 2,
    need_ls: bool | None = None,
    subsystems: tuple[int, ...] = (1, 2, 3),
    force_all_subsystems: bool = False,
    spins=None,
    allow_shared_names: bool = True,
    max_L: int | None = None,
    complete_ls: bool = False,
    max_two_spin_resonance: int | None = None,
):
    """A three-body decay; `need_ls=None` leaves out some LS couplings."""
    if spins is None:
        spins = draw(spin_choices(max_helicities))
    if max_two_spin_resonance is None:
        max_two_spin_resonance = draw(st.sampled_from([5, 5, 5, 9]))
    if max_L is None:
        max_L = draw(st.sampled_from([4, 4, 6]))
    n_helicities = 1
    for t in spins:
        n_helicities *= t + 1
    if max_resonances >= 3 and n_helicities <= 4 and draw(st.integers(0, 7)) == 7:  # many chains
        max_resonances = draw(st.sampled_from([6, 12]))
        max_chains_per_resonance = draw(st.sampled_from([max_chains_per_resonance, 4]))
    # some coupling has to be possible for every spin of the initial state
    max_L = max(max_L, (spins[0] - max_two_spin_resonance + 1) // 2 + 1)
    if force_all_subsystems:
        ks = [1, 2, 3]
        ks = draw(st.permutations(ks))
        extra = draw(st.integers(0, max(0, max_resonances - 3)))
        ks = list(ks) + [draw(st.sampled_from(subsystems)) for _ in range(extra)]
    else:
        n = draw(st.sampled_from(list(range(1, max_resonances + 1))))
        ks = [draw(st.sampled_from(subsystems)) for _ in range(n)]
    chains = []
    pool = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5]))
    used: dict[str | int, tuple[set, int]] = {}
    for r, k in enumerate(ks):
        i, j = PAIR[k]
        tJ = draw(st.sampled_from([t for t in range(max_two_spin_resonance + 1) if (t + spins[i] + spins[j]) % 2 == 0]))
        name = r
        if allow_shared_names and r > 0:
            # not twice in one subsystem: the two chains would be one and the same
            same = [s for s, (k2, t2) in used.items() if t2 == tJ and k not in k2]
            if same and draw(st.integers(0, 3)) == 3:
                name = same[0]
        used.setdefault(name, (set(), tJ))[0].add(k)
        prod = phys.allowed_ls(spins[0], tJ, spins[k], max_L)
        dec = phys.allowed_ls(tJ, spins[i], spins[j], max_L)
        if need_ls and (not prod or not dec):
            # choose a resonance spin with allowed couplings
            options = [
                t
                for t in range(max_two_spin_resonance + 1)
                if (t + spins[i] + spins[j]) % 2 == 0
                and phys.allowed_ls(spins[0], t, spins[k], max_L)
                and phys.allowed_ls(t, spins[i], spins[j], max_L)
            ]
            tJ = draw(st.sampled_from(options))
            if name != r:
                name = r
            used[name] = ({k}, tJ)
            prod = phys.allowed_ls(spins[0], tJ, spins[k], max_L)
            dec = phys.allowed_ls(tJ, spins[i], spins[j], max_L)
        if complete_ls:
            combos = list(product(prod, dec))
        elif need_ls or (need_ls is None and prod and dec and draw(st.booleans())):
            all_combos = list(product(prod, dec))
            n_ls = draw(st.integers(1, min(max_chains_per_resonance, len(all_combos))))
            combos = draw(st.lists(st.sampled_from(all_combos), min_size=n_ls, max_size=n_ls, unique=True))
        else:
            combos = [(None, None)]
        swap = [draw(st.booleans()), draw(st.booleans())]
        mass = draw(st.integers(300, 4000)) / 1000
        width = draw(st.integers(5, 500)) / 1000
        for p, d in combos:
            chains.append({
                "k": k,
                "res": name,
                "pool": pool,
                "tJ": tJ,
                "prod": None if p is None else list(p),
                "dec": None if d is None else list(d),
                "swap": swap,
                "mass": mass,
                "width": width,
                "parity": draw(st.sampled_from([1, -1, None])),
            })
    order = draw(st.sampled_from([[0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], [2, 3, 0, 1]]))
    # identical final-state particles: state n is the same particle as state same[n]
    same = draw(st.sampled_from([[0, 1, 2, 3], [0, 1, 2, 3], [0, 1, 1, 3], [0, 1, 2, 1], [0, 1, 2, 2], [0, 1, 1, 1]]))
    same = [n if spins[n] != spins[m] else m for n, m in enumerate(same)]
    return {"spins": spins, "chains": unify(chains), "order": order, "same": same}


def state_name(case, i: int) -> str:
    return STATE_NAMES[case.get("same", range(4))[i]]


def state_latex(case, i: int) -> str:
    return STATE_LATEX[case.get("same", range(4))[i]]


def unify(chains):
    """Same resonance name and subsystem: same particle properties."""
    seen: dict = {}
    out = []
    for c in chains:
        key = c["res"]
        ref = seen.setdefault(key, c)
        out.append({**c, "mass": ref["mass"], "width": ref["width"], "parity": ref["parity"]})
    return out


def resonance_latex(case_chain) -> str:
    pool, n = LATEX[case_chain.get("pool", 0)], case_chain["res"]
    return pool[n] if n < len(pool) else f"R_{{{n}}}"


def resonance_name(case_chain) -> str:
    pool, n = NAMES[case_chain.get("pool", 0)], case_chain["res"]
    return pool[n] if n < len(pool) else f"R{n}"


def bases():
    """Helicity (True) or LS basis (False) for the production and decay vertex."""
    return st.sampled_from([[True, True], [False, False], [True, False], [False, True]])


def half(two_x: int):
    import sympy as sp

    return sp.Rational(two_x, 2)


def build_states(case, masses=None):
    from ampform_dpd.decay import State

    masses = masses or case.get("masses") or [4.0, 0.9, 0.3, 0.5]
    parities = case.get("parities") or [1, 1, -1, -1]
    return {
        i: State(
            name=state_name(case, i),
            latex=state_latex(case, i),
            spin=half(case["spins"][i]),
            parity=parities[i],
            mass=masses[i],
            width=0.0,
            index=i,
        )
        for i in case.get("order") or range(4)
    }


def build_chain(chain, states):
    from ampform_dpd.decay import IsobarNode, LSCoupling, Particle, ThreeBodyDecayChain

    k = chain["k"]
    i, j = PAIR[k]
    if chain["swap"][1]:
        i, j = j, i
    resonance = Particle(
        name=resonance_name(chain),
        latex=resonance_latex(chain),
        spin=half(chain["tJ"]),
        parity=chain["parity"],
        mass=chain["mass"],
        width=chain["width"],
    )

    def ls(x):
        return None if x is None else LSCoupling(L=x[0], S=half(x[1]))

    node = IsobarNode(
        parent=resonance, child1=states[i], child2=states[j], interaction=ls(chain["dec"])
    )
    children = (states[k], node) if chain["swap"][0] else (node, states[k])
    return ThreeBodyDecayChain(
        IsobarNode(parent=states[0], child1=children[0], child2=children[1], interaction=ls(chain["prod"]))
    )


def build_decay(case, masses=None, chains=None):
    from ampform_dpd.decay import ThreeBodyDecay

    states = build_states(case, masses)
    chains = case["chains"] if chains is None else chains
    return ThreeBodyDecay(states=states, chains=[build_chain(c, states) for c in chains])


# ----------------------------------------------------------------- couplings


def coupling_value(salt: int, *key) -> complex:
    """A complex number that is a pure function of the salt and the key."""
    digest = hashlib.md5(repr((salt, *key)).encode()).digest()  # noqa: S324
    a = int.from_bytes(digest[:4], "big") / 2**32
    b = int.from_bytes(digest[4:8], "big") / 2**32
    return complex(2 * a - 1, 2 * b - 1) + complex(0.1, 0.05)


def salts():
    return st.integers(0, 10**6)
