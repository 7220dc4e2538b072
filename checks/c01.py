"""C01: angles against explicit four-momenta."""

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd.angles import (
    formulate_scattering_angle,
    formulate_theta_hat_angle,
    formulate_zeta_angle,
)
from vf import gens, phys
from vf.harness import Sub, Violation, check, expect_rejection, under_test
from vf.interp import Evaluator, kinematic_values

ALLOWED = set(sp.symbols("sigma1:4 m:4", nonnegative=True))
ATOL = 1e-7


def _value(ev, expr, what):
    with under_test(what):
        value = ev(expr)
    value = np.asarray(value, dtype=complex)
    check(np.all(np.isfinite(value)), lambda: f"{what} is not finite: {value}")
    check(np.all(np.abs(value.imag) < ATOL), lambda: f"{what} is not real: {value}")
    return value.real


def _compare(ev, expr, expected, what):
    check(
        set(sp.sympify(expr).free_symbols) <= ALLOWED,
        lambda: f"{what} depends on {expr.free_symbols - ALLOWED}",
    )
    got = _value(ev, expr, what)
    check(
        np.all(np.abs(got - expected) < ATOL),
        lambda: f"{what} is {got}, but should be {expected}",
    )


def _evaluator(case):
    kin = gens.build_kinematics(case)
    return kin, Evaluator(kinematic_values(kin))


def body_scattering(case, ctx):
    kin, ev = _evaluator(case)
    for i, j in phys.CYCLIC.values():
        symbol, expr = formulate_scattering_angle(i, j)
        check(symbol.name == f"theta_{i}{j}", f"symbol {symbol} for theta_{i}{j}")
        _compare(ev, expr, kin.scattering(i, j), f"theta_{i}{j}")
        # the other order is either refused or the angle of the other particle
        try:
            symbol, expr = formulate_scattering_angle(j, i)
        except (NotImplementedError, ValueError):
            continue
        _compare(ev, expr, kin.scattering(j, i), f"theta_{j}{i}")
    return _labels(case)


def body_theta_hat(case, ctx):
    kin, ev = _evaluator(case)
    for i in (1, 2, 3):
        for j in (1, 2, 3):
            symbol, expr = formulate_theta_hat_angle(i, j)
            check(symbol.name == rf"\hat\theta_{i}({j})", f"symbol {symbol} for {i}({j})")
            _compare(ev, expr, kin.theta_hat(i, j), f"theta_hat_{i}({j})")
            if i == j:
                check(expr == 0, f"theta_hat_{i}({j}) is not zero")
    return _labels(case)


def body_zeta(case, ctx):
    kin, ev = _evaluator(case)
    for i in range(4):
        for j in (1, 2, 3):
            for k in range(4):
                if i == k == 0:
                    continue
                symbol, expr = formulate_zeta_angle(i, j, k)
                check(
                    symbol.name == rf"\zeta^{i}_{{{j}({k})}}",
                    f"symbol {symbol} for zeta^{i}_{j}({k})",
                )
                _compare(ev, expr, kin.zeta(i, j, k), f"zeta^{i}_{j}({k})")
    return _labels(case)


def body_algebra(case, ctx):
    """Relations between the angles, without reference to momenta."""
    _, ev = _evaluator(case)
    z = {
        (i, j, k): _value(ev, formulate_zeta_angle(i, j, k)[1], f"zeta^{i}_{j}({k})")
        for i in range(4)
        for j in (1, 2, 3)
        for k in (1, 2, 3)
    }
    for i, j, k in z:
        what = f"zeta^{i}_{j}({k})"
        check(np.all(np.abs(z[i, j, k] + z[i, k, j]) < ATOL), f"{what} is not antisymmetric")
        if j == k:
            check(np.all(z[i, j, k] == 0), f"{what} is not zero")
        for l in (1, 2, 3):
            diff = z[i, j, k] + z[i, k, l] - z[i, j, l]
            if i == 0:  # the three isobars span the full circle
                diff = diff - 2 * np.pi * np.round(diff / (2 * np.pi))
            check(np.all(np.abs(diff) < 3 * ATOL), lambda: f"{what} is not additive over {l}: {diff}")
    return _labels(case)


def _labels(case):
    m = case["masses"]
    return {
        "nontrivial": True,
        "points": len(case["points"]),
        "equal masses": len(set(m[1:])) < 3,
        "near edge": any(p[0] < 0.1 or p[0] > 0.9 or abs(p[1]) > 0.9 for p in case["points"]),
        "light": min(m[1:]) < 0.05 * m[0],
        "unit": "GeV" if 0.2 < m[0] < 100 else "other",
    }


def invalid_ids():
    any_id = st.integers(-4, 8)
    return st.one_of(
        st.tuples(st.just("scattering"), any_id, any_id, st.just(0)),
        st.tuples(st.just("theta_hat"), any_id, any_id, st.just(0)),
        st.tuples(st.just("zeta"), any_id, any_id, any_id),
    ).map(list).filter(_is_invalid)


def _is_invalid(case):
    kind, a, b, c = case
    valid = {1, 2, 3}
    if kind == "scattering":
        return a == b or not {a, b} <= valid
    if kind == "theta_hat":
        return not {a, b} <= valid
    if a == 0:
        return not {b, c} <= valid
    if b == (c or a):  # gives zero whatever it refers to
        return False
    return a not in valid or b not in valid or c not in {0, 1, 2, 3}


def body_invalid(case, ctx):
    kind, a, b, c = case
    func = {
        "scattering": lambda: formulate_scattering_angle(a, b),
        "theta_hat": lambda: formulate_theta_hat_angle(a, b),
        "zeta": lambda: formulate_zeta_angle(a, b, c),
    }[kind]
    with expect_rejection(f"{kind} angle for ids {a}, {b}, {c}"):
        func()
    return {"nontrivial": True, kind: True}


RULE_KIN = "physical point strictly inside the Dalitz plot with three massive particles"
SUBS = [
    Sub("scattering", gens.scaled_kinematics, body_scattering, 1200, 40000, RULE_KIN),
    Sub("theta_hat", gens.scaled_kinematics, body_theta_hat, 1200, 30000, RULE_KIN),
    Sub("zeta", gens.scaled_kinematics, body_zeta, 1200, 30000, RULE_KIN),
    Sub("algebra", gens.scaled_kinematics, body_algebra, 500, 10000, RULE_KIN),
    Sub("invalid", invalid_ids, body_invalid, 400, 2000, "ids that describe no angle", shards=2),
]
ASSUMPTIONS = [
    "orientation convention of the DPD paper: rotation from the direction of the reference to that of the aligned isobar, positive for cyclic (31), (12), (23)",
    "points keep 3% distance from the edges of phase space, where acos loses precision",
]
