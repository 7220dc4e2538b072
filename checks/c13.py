"""C13: spin projections and LS couplings are complete and physical."""

from fractions import Fraction

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd.spin import (
    create_rational_range,
    create_spin_range,
    filter_parity_violating_ls,
    generate_ls_couplings,
)
from vf import phys
from vf.harness import Sub, check, spoil, under_test
from vf.interp import two

FORMS = ["float", "rational", "fraction", "numpy", "int-if-possible"]


def as_form(two_x: int, form: str):
    if form == "float":
        return two_x / 2
    if form == "rational":
        return sp.Rational(two_x, 2)
    if form == "fraction":
        return Fraction(two_x, 2)
    if form == "numpy":
        return np.float64(two_x / 2)
    return two_x // 2 if two_x % 2 == 0 else two_x / 2


def exact(values, what):
    check(isinstance(values, list), f"{what} is a {type(values).__name__}")
    for v in values:
        check(isinstance(v, sp.Rational), f"{what} contains {v!r}, which is not an exact rational")
    return [two(v) for v in values]


def projection_cases():
    return st.fixed_dictionaries({
        "two_j": st.one_of(st.integers(0, 20), st.integers(0, 400)),
        "from": st.integers(-60, 60),
        "length": st.integers(-3, 80),
        "form": st.sampled_from(FORMS),
    })


def body_projections(case, ctx):
    tj = case["two_j"]
    with under_test("create_spin_range"):
        returned = create_spin_range(as_form(tj, case["form"]))
        got = exact(returned, "spin range")
    check(got == list(range(-tj, tj + 1, 2)), lambda: f"projections of {tj}/2 are {got}")
    spoil(returned)
    with under_test("create_spin_range"):
        got = exact(create_spin_range(as_form(tj, case["form"])), "spin range")
    check(got == list(range(-tj, tj + 1, 2)), lambda: f"projections of {tj}/2 are {got}, once a result is modified")
    a, b = case["from"], case["from"] + case["length"]
    with under_test("create_rational_range"):
        for _ in range(2):
            returned = create_rational_range(as_form(a, case["form"]), as_form(b, case["form"]))
            got = exact(returned, "range")
            check(got == list(range(a, b + 1, 2)), f"range from {a}/2 to {b}/2 is {got}")
            spoil(returned)
    return {"nontrivial": tj > 0, "half-integer": tj % 2 == 1, "form": case["form"]}


def ls_cases():
    spin = st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(0, 25))
    return st.fixed_dictionaries({
        "spins": st.lists(spin, min_size=3, max_size=3),
        "max_L": st.one_of(st.none(), st.integers(0, 6), st.integers(0, 14)),
        "form": st.sampled_from(FORMS),
        "parities": st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3),
        "extra": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), max_size=5),
        "parity_form": st.sampled_from(["int", "sympy", "float"]),
    })


def check_ls(got, what):
    check(isinstance(got, list), f"{what} is a {type(got).__name__}")
    for L, S in got:
        check(type(L) is int, f"L is a {type(L).__name__}")
        check(isinstance(S, sp.Rational), f"S={S!r} is not an exact rational")
    return [(L, two(S)) for L, S in got]


def body_ls(case, ctx):
    t0, t1, t2 = case["spins"]
    args = [as_form(t, case["form"]) for t in case["spins"]]
    with under_test("generate_ls_couplings"):
        if case["max_L"] is None:
            couplings = generate_ls_couplings(*args)
        else:
            couplings = generate_ls_couplings(*args, max_L=case["max_L"])
    got = check_ls(couplings, "LS couplings")
    expected = phys.allowed_ls(t0, t1, t2, 3 if case["max_L"] is None else case["max_L"])
    check(got == expected, lambda: f"LS couplings of {t0}/2 -> {t1}/2 {t2}/2 are {got}, not {expected}")
    with under_test("generate_ls_couplings"):
        swapped = generate_ls_couplings(args[0], args[2], args[1], *([] if case["max_L"] is None else [case["max_L"]]))
    check(swapped == couplings, "LS couplings depend on the order of the children")
    # every helicity amplitude can be made out of enough of them
    max_L = (t0 + t1 + t2) // 2
    if (t0 + t1 + t2) % 2 == 0:
        with under_test("generate_ls_couplings"):
            n = len(generate_ls_couplings(*args, max_L=max_L))
        n_helicities = sum(
            abs(a - b) <= t0 for a in range(-t1, t1 + 1, 2) for b in range(-t2, t2 + 1, 2)
        )
        check(n == n_helicities, f"{n} LS couplings for {n_helicities} helicity couplings")
    parities = case["parities"]
    if case["parity_form"] != "int":
        conv = sp.Integer if case["parity_form"] == "sympy" else float
        parities = [conv(p) for p in parities]
    pool = list(couplings) + [(L, sp.Rational(s, 2)) for L, s in case["extra"]]
    before = list(pool)
    with under_test("filter_parity_violating_ls"):
        kept = filter_parity_violating_ls(pool, *parities)
    p0, p1, p2 = case["parities"]
    want = [(L, S) for L, S in before if p0 == (p1 * p2 if L % 2 == 0 else -p1 * p2)]
    check(list(kept) == want, lambda: f"parity filter keeps {kept}, not {want}")
    check(pool == before, "the parity filter changed its input")
    spoil(kept, couplings)
    with under_test("generate_ls_couplings"):
        again = generate_ls_couplings(*args, *([] if case["max_L"] is None else [case["max_L"]]))
        kept = filter_parity_violating_ls(before, *parities)
    check(check_ls(again, "LS couplings") == expected, lambda: f"LS couplings are {again}, once a result is modified")
    check(list(kept) == want, lambda: f"parity filter keeps {kept}, once a result is modified")
    return {
        "nontrivial": len(expected) > 1,
        "cannot couple": (t0 + t1 + t2) % 2 == 1,
        "max_L": "default" if case["max_L"] is None else min(case["max_L"], 7),
        "filtered": len(want) < len(before),
    }


SUBS = [
    Sub("projections", projection_cases, body_projections, 4000, 40000, "spin above zero", min_nontrivial=0.5, shards=4),
    Sub("couplings", ls_cases, body_ls, 12000, 200000, "more than one coupling", min_nontrivial=0.2),
]
