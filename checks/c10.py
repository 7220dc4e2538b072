"""C10: each chain gets the dynamics registered for it, in any history of calls."""

import warnings

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder, DefinedExpression
from vf import gens, models
from vf.harness import Sub, Violation, check, expect_rejection, spoil, under_test
from vf.interp import close, sigma_symbols

N_BUILDERS = 4


class BoomError(Exception):
    """Raised by a builder."""


@st.composite
def ops(draw, n_chains):
    kind = draw(st.sampled_from([
        "name", "name", "chain", "chain", "equal-chain", "foreign", "unknown", "type",
        "get-name", "get-chain", "formulate", "subsystem", "bad-formulate", "boom",
    ]))
    return [
        kind,
        draw(st.integers(0, n_chains - 1)),
        draw(st.integers(0, N_BUILDERS - 1)),
        draw(st.sampled_from([None, 1, 2, 3])),
        [draw(st.booleans()), draw(st.booleans())],
    ]


@st.composite
def cases(draw, max_ops=8):
    basis = draw(gens.bases())
    decay = draw(gens.decay_cases(
        max_helicities=6,
        max_resonances=4,
        need_ls=None if all(basis) else True,
    ))
    if draw(st.integers(0, 2)) == 0:  # chains of one resonance name with other properties
        for n, c in enumerate(decay["chains"]):
            c[draw(st.sampled_from(["mass", "width"]))] += n / 100
    return {
        "decay": decay,
        "kin": draw(gens.kinematics(max_size=1)),
        "basis": basis,
        "all_subsystems": draw(st.booleans()),
        "salt": draw(gens.salts()),
        "ops": draw(st.lists(ops(len(decay["chains"])), min_size=2, max_size=max_ops)),
        "final": [draw(st.sampled_from([None, 1, 2, 3])), draw(st.booleans()), draw(st.booleans())],
    }


def chain_tag(c) -> str:
    """The contents of a chain of a case."""
    ls = ["n" if c[x] is None else f"{c[x][0]}.{c[x][1]}" for x in ("prod", "dec")]
    return f"{gens.resonance_name(c)}|{c['k']}|{c['tJ']}|" + "|".join(ls)


def tag_of(chain) -> str:
    """The contents of a chain object."""
    ls = ["n" if x is None else f"{x.L}.{int(2 * x.S)}" for x in (chain.incoming_ls, chain.outgoing_ls)]
    return f"{chain.resonance.name}|{chain.spectator.index}|{int(2 * chain.resonance.spin)}|" + "|".join(ls)


class Recorder:
    """Builder that has a different lineshape and parameter for each chain."""

    def __init__(self, n: int) -> None:
        self.n = n
        self.calls = []

    def __call__(self, chain):
        self.calls.append(chain)
        tag = tag_of(chain)
        x = sp.Symbol(f"x_{{{self.n}|{tag}}}")
        s = sigma_symbols()[chain.spectator.index]
        return DefinedExpression(x / (s + self.n + 1), {x: parameter(self.n, tag)})


class Boom:
    def __call__(self, chain):
        raise BoomError


def parameter(n, tag):
    return gens.coupling_value(23, n, tag)


def lineshapes(case, registered, kin):
    out = []
    for c, n in zip(case["decay"]["chains"], registered):
        if n is None:
            out.append(1.0)
        else:
            out.append(parameter(n, chain_tag(c)) / (kin.sigma[c["k"]] + n + 1))
    return out


def formulate(builder, reference, cleanup, coefficients):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return builder.formulate(reference, cleanup_summations=cleanup, use_coefficients=coefficients)


def overrides_for(model, case):
    """Coefficients that equal the product of couplings."""
    from c07 import coefficient_key

    out = {}
    for symbol in model.parameter_defaults:
        if models.is_coupling(symbol):
            latex, prod, dec = coefficient_key(symbol, case)
            basis = ["helicity" if b else "LS" for b in case["basis"]]
            out[symbol] = gens.coupling_value(
                case["salt"], "production", basis[0], latex, *prod
            ) * gens.coupling_value(case["salt"], "decay", basis[1], latex, *dec)
    return out


def check_model(model, case, registered, kin, reference, coefficients):
    if reference is None:
        ks = [c["k"] for c in case["decay"]["chains"]]
        counts = {k: ks.count(k) for k in set(ks)}
        best = {k for k, n in counts.items() if n == max(counts.values())}
    else:
        best = {reference}
    shapes = lineshapes(case, registered, kin)
    wrong = None
    overrides = overrides_for(model, case) if coefficients else {}
    got = models.intensity(model, kin, None if coefficients else case["salt"], overrides)
    for ref in best:  # C04 decides which one is taken if there are several
        expected = models.reference_intensity(
            case["decay"], kin, case["salt"], case["basis"], ref, shapes
        )
        if close(got, expected):
            break
        wrong = expected
    else:
        raise Violation(f"with dynamics {registered} the intensity is {got}, not {wrong}")
    parameters = {
        s.name: v
        for s, v in model.parameter_defaults.items()
        if not models.is_coupling(s) and s.name not in {"m0", "m1", "m2", "m3"}
    }
    expected_parameters = {
        f"x_{{{n}|{chain_tag(c)}}}": parameter(n, chain_tag(c))
        for c, n in zip(case["decay"]["chains"], registered)
        if n is not None
    }
    check(parameters == expected_parameters, lambda: f"parameters are {parameters}, not {expected_parameters}")


def models_equal(a, b) -> str | None:
    for name in ("decay", "intensity", "amplitudes", "variables", "parameter_defaults", "masses", "invariants"):
        if getattr(a, name) != getattr(b, name):
            return name
    return None


def body(case, ctx):  # noqa: C901, PLR0912, PLR0915
    kin = gens.build_kinematics(case["kin"])
    masses = case["kin"]["masses"]
    cases_ = case["decay"]["chains"]
    decay = gens.build_decay(case["decay"], masses)
    builder = DalitzPlotDecompositionBuilder(
        decay, min_ls=tuple(case["basis"]), all_subsystems=case["all_subsystems"]
    )
    config = builder.dynamics_choices
    recorders = [Recorder(n) for n in range(N_BUILDERS)]
    registered: list = [None] * len(cases_)
    broken: set = set()
    names = [gens.resonance_name(c) for c in cases_]
    formulated = failed = 0

    def set_(indices, n):
        for i in indices:
            registered[i] = n
            broken.discard(i)

    for kind, i, n, reference, (flag1, flag2) in case["ops"]:
        if kind == "name":
            with under_test(f"register for name {names[i]}"):
                config.register_builder(names[i], recorders[n])
            set_([x for x, name in enumerate(names) if name == names[i]], n)
        elif kind == "chain":
            with under_test(f"register for chain {i}"):
                config.register_builder(decay.chains[i], recorders[n])
            set_([i], n)
        elif kind == "equal-chain":
            other = gens.build_chain(cases_[i], gens.build_states(case["decay"], masses))
            with under_test("register for an equal chain"):
                config.register_builder(other, recorders[n])
            set_([i], n)
        elif kind == "boom":
            with under_test("register"):
                config.register_builder(decay.chains[i], Boom())
            registered[i] = None
            broken.add(i)
        elif kind == "foreign":
            c = {**cases_[i], "mass": cases_[i]["mass"] + 1}
            foreign = gens.build_chain(c, gens.build_states(case["decay"], masses))
            with expect_rejection("registration for a chain of another decay"):
                config.register_builder(foreign, recorders[n])
            with expect_rejection("lookup for a chain of another decay"):
                config.get_builder(foreign)
            failed += 1
        elif kind == "unknown":
            wrong = [names[i] + "x", "", names[i].lower() + " ", "Lc"][n]
            wrong = wrong if wrong not in names else names[i] + "??"
            with expect_rejection("registration for an unknown resonance"):
                config.register_builder(wrong, recorders[n])
            with expect_rejection("lookup of an unknown resonance"):
                config.get_builder(wrong)
            failed += 1
        elif kind == "type":
            wrong = [1, None, 2.5, decay][n]
            with expect_rejection("registration with a wrong type"):
                config.register_builder(wrong, recorders[n])
            with expect_rejection("lookup with a wrong type"):
                config.get_builder(wrong)
            failed += 1
        elif kind == "get-chain":
            with under_test("get_builder"):
                got = config.get_builder(decay.chains[i])
            check_builder(got, registered[i], i in broken, recorders, decay.chains[i])
        elif kind == "get-name":
            same = [x for x, name in enumerate(names) if name == names[i]]
            with under_test("get_builder"):
                got = config.get_builder(names[i])
            errors = []
            for x in same:
                try:
                    check_builder(got, registered[x], x in broken, recorders, decay.chains[x])
                    break
                except Violation as e:
                    errors.append(e)
            else:
                raise errors[0]
        elif kind == "bad-formulate":
            # whether it fails or not (without spins, it cannot matter), it must not have an effect
            try:
                formulate(builder, 5, flag1, flag2)
            except Exception:  # noqa: BLE001
                failed += 1
        elif kind in {"formulate", "subsystem"}:
            k = cases_[i]["k"]
            affected = broken if kind == "formulate" else {b for b in broken if cases_[b]["k"] == k}
            for r in recorders:
                r.calls.clear()
            j0 = [-s for s in case["decay"]["spins"]]
            if affected:
                with expect_rejection("formulation with a builder that fails", BoomError):
                    if kind == "formulate":
                        formulate(builder, reference, flag1, flag2)
                    else:
                        builder.formulate_subsystem_amplitude(*map(gens.half, j0), k, use_coefficients=flag2)
                failed += 1
                continue
            with under_test(kind):
                if kind == "formulate":
                    model = formulate(builder, reference, flag1, flag2)
                else:
                    builder.formulate_subsystem_amplitude(*map(gens.half, j0), k, use_coefficients=flag2)
            for r in recorders:
                want = {
                    decay.chains[x] for x, m in enumerate(registered)
                    if m == r.n and (kind == "formulate" or cases_[x]["k"] == k)
                }
                check(set(r.calls) <= want, lambda: f"builder {r.n} called for {r.calls}, not for {want}")
            if kind == "formulate":
                check_model(model, case, registered, kin, reference, flag2)
                formulated += 1
    for i in sorted(broken):
        config.register_builder(decay.chains[i], recorders[0])
        registered[i] = 0
    reference, cleanup, coefficients = case["final"]
    with under_test("formulate"):
        final = formulate(builder, reference, cleanup, coefficients)
        again = formulate(builder, reference, cleanup, coefficients)
    check_model(final, case, registered, kin, reference, coefficients)
    difference = models_equal(final, again)
    check(difference is None, f"formulating twice gives a different {difference}")
    spoil(again.amplitudes, again.variables, again.parameter_defaults, again.masses, again.invariants)
    with under_test("formulate"):
        again = formulate(builder, reference, cleanup, coefficients)
    difference = models_equal(final, again)
    check(difference is None, f"formulating gives a different {difference}, once a model is modified")
    fresh = DalitzPlotDecompositionBuilder(
        gens.build_decay(case["decay"], masses),
        min_ls=tuple(case["basis"]),
        all_subsystems=case["all_subsystems"],
    )
    with under_test("formulate with a fresh builder"):
        for chain, n in reversed(list(zip(fresh.decay.chains, registered))):
            if n is not None:
                fresh.dynamics_choices.register_builder(chain, Recorder(n))
        fresh_model = formulate(fresh, reference, cleanup, coefficients)
    difference = models_equal(final, fresh_model)
    check(difference is None, f"a fresh builder gives a different {difference}")
    check(builder.decay == decay and config.decay == decay, "the decay has changed")
    return {
        "nontrivial": len({x for x in registered if x is not None}) > 1 or (None in registered and len(set(registered)) > 1),
        "formulations": formulated,
        "failed calls": failed,
        "all_subsystems": case["all_subsystems"],
        "same builder for several chains": len(set(registered)) < len(registered),
        "shared name": len(set(names)) < len({(c["res"], c["k"]) for c in cases_}),
    }


def check_builder(got, n, broken, recorders, chain):
    if broken:
        check(isinstance(got, Boom), f"lookup gives {got} instead of the failing builder")
    elif n is not None:
        check(got is recorders[n], f"lookup gives {got} instead of builder {n}")
    else:
        with under_test("default builder"):
            default = got(chain)
        check(
            default.expression == 1 and not default.parameters,
            f"default dynamics are {default}",
        )


@st.composite
def products(draw):
    term = st.tuples(st.integers(-3, 3), st.lists(st.integers(0, 4), max_size=3, unique=True))
    return {"terms": draw(st.lists(st.tuples(term, st.sampled_from(["defined", "pair", "plain"])), min_size=1, max_size=4))}


def body_products(case, ctx):
    """Products of defined expressions keep all parameters (as used by builders)."""
    symbols = sp.symbols("a:5")
    total = DefinedExpression()
    value = sp.S.One
    parameters: dict = {}
    for n, ((c, used), how) in enumerate(case["terms"]):
        expr = c + sum((symbols[u] for u in used), sp.S.Zero)
        defs = {symbols[u]: 10 * n + u for u in used}
        before = dict(total.parameters)
        if how == "defined":
            other = DefinedExpression(expr, dict(defs))
        elif how == "pair":
            other = (expr, dict(defs))
        else:
            other, defs = expr, {}
        with under_test("product of defined expressions"):
            new = total * other
        check(total.parameters == before, "a product changed its factor")
        value = value * expr
        parameters = {**parameters, **defs}
        check(sp.expand(new.expression - value) == 0, f"product is {new.expression}, not {value}")
        check(new.parameters == parameters, f"parameters of the product are {new.parameters}, not {parameters}")
        total = new
    return {"nontrivial": len(case["terms"]) > 1}


SUBS = [
    Sub("history", cases, body, 2500, 40000, "at least two chains have different dynamics", min_nontrivial=0.3),
    Sub("products", products, body_products, 400, 4000, "at least two factors", min_nontrivial=0.3, shards=2),
]
ASSUMPTIONS = ["builders are pure functions of the chain they are called with"]
