"""C06: LS couplings against helicity couplings."""

from itertools import product

import numpy as np
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder
from vf import gens, models, phys
from vf.harness import Sub, check, expect_rejection, under_test
from vf.interp import close


@st.composite
def cases(draw):
    basis = draw(st.sampled_from([[False, False], [True, False], [False, True]]))
    spins = draw(gens.spin_choices(24))
    max_tj = draw(st.sampled_from([6, 6, 10]))
    resonances = []
    ks = draw(st.lists(st.sampled_from([1, 2, 3]), min_size=1, max_size=3))
    for n, k in enumerate(ks):
        i, j = gens.PAIR[k]
        options = [
            t
            for t in range(max_tj)
            if phys.allowed_ls(spins[0], t, spins[k], 6) and phys.allowed_ls(t, spins[i], spins[j], 6)
        ]
        tJ = draw(st.sampled_from(options))

        def pick(allowed, helicity_basis):
            size = 1 if helicity_basis else min(3, len(allowed))
            return [list(x) for x in draw(st.lists(st.sampled_from(allowed), min_size=1, max_size=size, unique=True))]

        resonances.append({
            "k": k,
            "res": n,
            "tJ": tJ,
            "P": pick(phys.allowed_ls(spins[0], tJ, spins[k], 6), basis[0]),
            "D": pick(phys.allowed_ls(tJ, spins[i], spins[j], 6), basis[1]),
            "swap": [draw(st.booleans()), draw(st.booleans())],
        })
    return {
        "spins": spins,
        "resonances": resonances,
        "basis": basis,
        "kin": draw(gens.kinematics(max_size=2)),
        "salt": draw(gens.salts()),
        "reference": draw(st.sampled_from([1, 2, 3])),
    }


def to_chains(r, couplings):
    return [
        {**{k: r[k] for k in ("k", "res", "tJ", "swap")}, "prod": p, "dec": d,
         "mass": 1.5, "width": 0.1, "parity": None}
        for p, d in couplings
    ]


def body(case, ctx):
    kin = gens.build_kinematics(case["kin"])
    spins, basis, salt = case["spins"], case["basis"], case["salt"]
    ls_case = {"spins": spins, "chains": [c for r in case["resonances"] for c in to_chains(r, product(r["P"], r["D"]))]}
    hel_case = {"spins": spins, "chains": [c for r in case["resonances"] for c in to_chains(r, [(r["P"][0], r["D"][0])])]}
    masses = case["kin"]["masses"]
    with under_test("formulate in LS couplings"):
        ls_model = DalitzPlotDecompositionBuilder(
            gens.build_decay(ls_case, masses), min_ls=tuple(basis)
        ).formulate(case["reference"])
    with under_test("formulate in helicity couplings"):
        hel_model = DalitzPlotDecompositionBuilder(
            gens.build_decay(hel_case, masses), min_ls=True
        ).formulate(case["reference"])
    got = models.intensity(ls_model, kin, salt)
    by_latex = {gens.resonance_latex(r): r for r in case["resonances"]}
    overrides = {}
    n_sum = 0
    for symbol in models.couplings_of(hel_model, salt):
        kind, kind_basis, latex, a, b = models.parse_coupling(symbol)
        r = by_latex[latex]
        production = kind == "production"
        if basis[0 if production else 1]:
            continue  # same helicity coupling in both
        total = 0j
        for ls in r["P" if production else "D"]:
            chain = {**r, "prod": ls, "dec": ls}
            coefficient = models.node_recoupling(chain, spins, kind)
            total += gens.coupling_value(salt, kind, "LS", latex, ls[0], ls[1]) * coefficient(a, b)
        n_sum = max(n_sum, len(r["P" if production else "D"]))
        overrides[symbol] = total
    expected = models.intensity(hel_model, kin, salt, overrides)
    check(close(got, expected), lambda: f"intensity in LS couplings is {got}, in helicity couplings {expected}")
    return {
        "nontrivial": max(spins) > 0 and bool(np.any(got > 1e-6)),
        "basis": "".join("h" if b else "l" for b in basis),
        "LS couplings in a sum": n_sum,
        "subsystems": len({r["k"] for r in case["resonances"]}),
    }


@st.composite
def missing_cases(draw):
    decay = draw(gens.decay_cases(max_helicities=12, max_resonances=2, need_ls=True))
    n = draw(st.integers(0, len(decay["chains"]) - 1))
    return {
        "decay": decay,
        "chain": n,
        "missing": draw(st.sampled_from(["prod", "dec", "both"])),
        "basis": draw(st.sampled_from([[False, False], [True, False], [False, True]])),
        "coefficients": draw(st.booleans()),
    }


def body_missing(case, ctx):
    decay_case = case["decay"]
    which = ["prod", "dec"] if case["missing"] == "both" else [case["missing"]]
    # a chain and its like: only one chain of the resonance, so that ids do not clash
    chain = {**decay_case["chains"][case["chain"]], **dict.fromkeys(which)}
    decay = gens.build_decay({**decay_case, "chains": [chain]})
    builder = DalitzPlotDecompositionBuilder(decay, min_ls=tuple(case["basis"]))
    needed = {w for w, helicity in zip(["prod", "dec"], case["basis"]) if not helicity}
    if needed & set(which):
        with expect_rejection("LS basis without LS couplings", ValueError, TypeError, AttributeError):
            builder.formulate(use_coefficients=case["coefficients"])
    else:
        with under_test("formulate"):
            builder.formulate(use_coefficients=case["coefficients"])
    return {"nontrivial": bool(needed & set(which)), "missing": case["missing"]}


SUBS = [
    Sub("recoupling", cases, body, 500, 15000, "a state with spin, non-zero intensity", min_nontrivial=0.5),
    Sub("missing", missing_cases, body_missing, 160, 2000, "LS coupling missing at a vertex that needs it", min_nontrivial=0.3),
]
