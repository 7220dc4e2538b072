"""C19: cached lambdification returns the function of the given expression.

A case is a history over several processes that share one cache directory. Each process
is forked from one in which nothing was lambdified, so that its in-memory cache is empty.
"""

import contextlib
import json
import logging
import os
import shutil
import signal
import tempfile
import traceback

import numpy as np
import sympy as sp
from ampform_dpd.io import perform_cached_lambdify
from ampform_dpd.io.cached import lambdify
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder
from ampform_dpd.dynamics import BreitWigner, SimpleBreitWigner
from vf import gens, models, phys
from vf.harness import HarnessError, Sub, Violation, check, under_test
from vf.interp import close

DATA = ["x", "y", R"\sigma_{1}"]
PARAMETERS = ["a", "b", R"\Gamma_{\Lambda(1520)}", "c^{K^*[0]}_{0, 1/2}"]
# different symbols for SymPy; all hold for the values that are inserted
ASSUMPTIONS_OF = [{}, {"complex": True}, {"finite": True}]


# ---------------------------------------------------------------- expressions
FINE_NUMBERS = [0.25, 0.25 + 2**-26, 0.25 + 2**-27, 1 + 2**-25]
SIMILAR = [["add", "sub", "mul"], ["sin", "cos", "abs", "sqrt1p", "exp-", "square", "times i"], ["bw", "simple bw"]]


def leaf():
    return st.one_of(
        st.tuples(st.just("sym"), st.sampled_from(DATA + PARAMETERS + PARAMETERS)),
        st.tuples(st.just("num"), st.integers(-3, 5)),
        st.tuples(st.just("num"), st.integers(-3, 5)),
        st.tuples(st.just("num"), st.sampled_from(FINE_NUMBERS)),
    ).map(list)


def trees():
    return st.recursive(
        leaf(),
        lambda t: st.one_of(
            st.tuples(st.sampled_from(["add", "mul", "sub"]), t, t),
            st.tuples(st.sampled_from(["sin", "cos", "abs", "sqrt1p", "exp-", "square", "times i", "cond"]), t),
            st.tuples(st.sampled_from(["bw", "simple bw"]), t),
        ).map(list),
        max_leaves=6,
    ).filter(lambda t: json.dumps(t).count('"cond"') < 2)  # SymPy's printer for JAX fails for nested ones


def to_sympy(tree, assumptions):
    expr = sp.sympify(_to_sympy(tree, assumptions))
    # SymPy folds constants exactly, but NumPy has no functions of integers of more than 64 bits
    large = [n for n in expr.atoms(sp.Rational) if max(abs(n.p), n.q) > 10**6]
    return expr.xreplace({n: sp.Float(n, 20) for n in large})


def _to_sympy(tree, assumptions):  # noqa: PLR0911
    op, *args = tree
    if op == "sym":
        return sp.Symbol(args[0], **assumptions)
    if op == "num":
        return sp.Rational(args[0])
    args = [_to_sympy(a, assumptions) for a in args]
    if op == "add":
        return args[0] + args[1]
    if op == "sub":
        return args[0] - args[1]
    if op == "mul":
        return args[0] * args[1]
    x = args[0]
    if op == "sin":
        return sp.sin(sp.Abs(x))
    if op == "cos":
        return sp.cos(sp.Abs(x))
    if op == "abs":
        return sp.Abs(x)
    if op == "sqrt1p":
        return sp.sqrt(1 + sp.Abs(x) ** 2)
    if op == "exp-":
        return sp.exp(-sp.Abs(x))
    if op == "square":
        return x**2
    if op == "times i":
        return x * sp.I
    if op == "cond":
        return sp.Piecewise((x, sp.Abs(x) < 1), (2 - x, True))
    m, w = sp.Rational(3, 2), sp.Rational(1, 5)
    s = 1 + sp.Abs(x) ** 2
    if op == "simple bw":
        return SimpleBreitWigner(s, m, w).doit()
    return BreitWigner(s, m, w, sp.Rational(1, 10), sp.Rational(1, 5), 1, 2).doit()


def value_of(tree, env):  # noqa: PLR0911
    op, *args = tree
    if op == "sym":
        return np.asarray(env[args[0]], dtype=complex)
    if op == "num":
        return complex(args[0])
    args = [value_of(a, env) for a in args]
    if op == "add":
        return args[0] + args[1]
    if op == "sub":
        return args[0] - args[1]
    if op == "mul":
        return args[0] * args[1]
    x = args[0]
    if op == "sin":
        return np.sin(np.abs(x))
    if op == "cos":
        return np.cos(np.abs(x))
    if op == "abs":
        return np.abs(x) + 0j
    if op == "sqrt1p":
        return np.sqrt(1 + np.abs(x) ** 2)
    if op == "exp-":
        return np.exp(-np.abs(x))
    if op == "square":
        return x**2
    if op == "times i":
        return x * 1j
    if op == "cond":
        return np.where(np.abs(x) < 1, x, 2 - x)
    m, w = 1.5, 0.2
    s = 1 + np.abs(x) ** 2
    if op == "simple bw":
        return 1 / (m**2 - s - 1j * m * w)
    q, q0 = (phys.breakup_momentum(v, 0.1, 0.2) for v in (s, m**2))
    ff2, ff2_0 = (phys.blatt_weisskopf_squared((k * 2) ** 2, 1) for k in (q, q0))
    running = w * ff2 / ff2_0 * (q / np.sqrt(s)) / (q0 / m)
    return 1 / (m**2 - s - 1j * m * running)


def symbols_of(tree) -> set:
    if tree[0] == "sym":
        return {tree[1]}
    return set().union(*(symbols_of(a) for a in tree[1:] if isinstance(a, list)), set())


# ------------------------------------------------------------------ histories
VALUES = [1, 0, 2, -0.5, 1.0, 0.75, [0.5, -0.25], 3]
# tiny ones, and ones that are almost equal
FINE_VALUES = [0.75, 0.75 + 2**-40, 2.5e-10, -3e-13, 3, 3 + 2**-40, [0.5, 1e-9], [1 / 3, 2 / 3], 0.1 + 0.2, 0.3, -0.0]


def number(v):
    return complex(*v) if isinstance(v, list) else v


def similar(tree, n: int, replacement: int):
    """A tree that differs in its n-th node only."""

    def visit(t):
        nonlocal n
        n -= 1
        here = n == -1
        op, *args = t
        args = [visit(a) if isinstance(a, list) else a for a in args]
        if not here:
            return [op, *args]
        if op == "sym":
            names = DATA + PARAMETERS
            return [op, names[(names.index(args[0]) + 1 + replacement) % len(names)]]
        if op == "num":
            return [op, args[0] + 2**-26 if isinstance(args[0], float) else args[0] + replacement % 3 + 1]
        for ops in SIMILAR:
            if op in ops:
                return [ops[(ops.index(op) + 1 + replacement) % len(ops)], *args]
        return [op, *args]

    return visit(tree)


@st.composite
def histories(draw):
    exprs = draw(st.lists(trees(), min_size=1, max_size=2))
    if draw(st.integers(0, 3)) == 3:
        exprs = [exprs[0], similar(exprs[0], draw(st.integers(0, 4)), draw(st.integers(0, 5)))]
    uses_jax = draw(st.sampled_from([True, False, False]))
    backends = ["numpy", "jax"] if uses_jax else ["numpy"]
    n_values = draw(st.sampled_from([2, 3, len(VALUES)]))
    value = st.sampled_from(VALUES[:n_values])
    if draw(st.integers(0, 3)) == 3:
        any_float = st.floats(-3, 3, allow_subnormal=False)
        fine = st.one_of(st.sampled_from(FINE_VALUES), any_float, st.lists(any_float, min_size=2, max_size=2))
        value = st.sampled_from(draw(st.lists(fine, min_size=1, max_size=4)))
    # few different sets of parameters, so that calls meet again
    sets = draw(st.lists(st.dictionaries(st.sampled_from(PARAMETERS), value, max_size=4), min_size=1, max_size=3))
    make = st.tuples(
        st.just("lambdify"),
        st.integers(0, len(exprs) - 1),
        st.integers(-1, len(sets) - 1),
        st.sampled_from(backends),
        st.sampled_from(["keyword", "keyword", "positional", "alias"]),
        st.integers(0, 2) if draw(st.booleans()) else st.just(0),
    )
    update = st.tuples(st.just("update"), st.integers(0, 9), st.dictionaries(st.sampled_from(PARAMETERS), value, min_size=1, max_size=2))
    call = st.tuples(st.just("call"), st.integers(0, 9), st.integers(0, 1))
    tamper = st.tuples(st.just("tamper"), st.integers(0, 9), value)
    ops = st.one_of(make, make, update, update, call, tamper).map(list)
    processes = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3]))):
        first = list(draw(make))
        processes.append([first, *draw(st.lists(ops, max_size=6))])
    return {"exprs": exprs, "sets": sets, "processes": processes}


POINTS = [
    {"x": np.array([0.3, -1.25, 2.0]), "y": np.array([1.5, 0.1, -0.7]), R"\sigma_{1}": np.array([0.9, 1.1, 0.2])},
    {"x": 0.45, "y": -1.0, R"\sigma_{1}": 2.25},
]


class Handle:
    def __init__(self, tree, function, parameters) -> None:
        self.tree, self.function, self.parameters = tree, function, parameters

    def compare(self, point, what) -> None:
        data = dict(POINTS[point])
        env = dict(data)
        if self.parameters is None:
            for n, name in enumerate(PARAMETERS):
                data[name] = env[name] = 0.5 + n / 4
        else:
            env.update({k: v for k, v in self.parameters.items() if k in PARAMETERS})
            for n, name in enumerate(PARAMETERS):
                if name not in self.parameters:
                    data[name] = env[name] = 0.5 + n / 4
            with under_test("parameters"):
                got = self.function.parameters
            check(got == self.parameters, lambda: f"{what}: parameters {got}, not {self.parameters}")
        with under_test(f"{what}: calling {to_sympy(self.tree, {})}"):
            value = np.asarray(self.function(data))
        expected = value_of(self.tree, env)
        check(
            close(value, expected, 1e-11, 1e-11),
            lambda: f"{what}: value {value} instead of {expected} for {to_sympy(self.tree, {})} with {self.parameters}",
        )


def run_process(case, ops) -> dict:
    handles: list[Handle] = []
    seen = set()
    repeats = jax = updates = 0
    for n, (op, *args) in enumerate(ops):
        what = f"operation {n} ({op})"
        if op == "lambdify":
            e, p, backend, style, assumption = args
            tree = case["exprs"][e]
            assumptions = ASSUMPTIONS_OF[assumption]
            expr = to_sympy(tree, assumptions)
            key = (e, p, backend)
            repeats += key in seen
            seen.add(key)
            jax += backend == "jax"
            spec = None if p < 0 else {k: number(v) for k, v in case["sets"][p].items()}
            passed = None if spec is None else {sp.Symbol(k, **assumptions): v for k, v in spec.items()}
            func = perform_cached_lambdify if style == "alias" else lambdify
            with under_test(f"{what}: lambdify({expr}, {passed}, backend={backend})"):
                if passed is None:
                    if style == "positional":
                        function = func(expr, backend)  # type: ignore[call-overload]
                    else:
                        function = func(expr, backend=backend)
                elif style == "positional":
                    function = func(expr, passed, backend=backend)
                else:
                    function = func(expr, parameters=passed, backend=backend)
            if passed:
                # what is passed in stays property of the caller
                check(passed == {sp.Symbol(k, **assumptions): v for k, v in spec.items()}, f"{what}: changed its arguments")
                for k in passed:
                    passed[k] = 99
            handles.append(Handle(tree, function, spec))
            continue
        if not handles:
            continue
        handle = handles[args[0] % len(handles)]
        if op == "update" and handle.parameters:
            new = {k: number(v) for k, v in args[1].items() if k in handle.parameters}
            with under_test(what):
                handle.function.update_parameters(new)
            handle.parameters.update(new)
            updates += any(h is not handle for h in handles) and bool(new)
        elif op == "tamper" and handle.parameters:
            with under_test(what):
                view = handle.function.parameters
            with contextlib.suppress(TypeError):  # a read-only view is fine as well
                for k in list(view):
                    view[k] = number(args[1])
        elif op == "call":
            handle.compare(args[1], what)
    for n, handle in enumerate(handles):
        handle.compare(0, f"function {n} at the end")
    return {"repeats": repeats, "jax": jax, "updates": updates}


def forked(task):
    """Run `task` in a new process and return its JSON result."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(read)
            try:
                result = {"ok": task()}
            except Violation as e:
                result = {"violation": str(e)}
            except BaseException:  # noqa: BLE001
                result = {"error": traceback.format_exc()}
            with os.fdopen(write, "w") as f:
                json.dump(result, f)
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(write)
    try:
        with os.fdopen(read) as f:
            text = f.read()
        os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    if not text:
        raise HarnessError("process ended without result")
    result = json.loads(text)
    if "violation" in result:
        raise Violation(result["violation"])
    if "error" in result:
        if "/src/ampform_dpd/" in result["error"]:
            raise Violation(result["error"])
        raise HarnessError(result["error"])
    return result["ok"]


def in_scratch_cache(run):
    directory = tempfile.mkdtemp(prefix="vf-c19-")
    before = os.environ.get("COMPWA_CACHE_DIR")
    os.environ["COMPWA_CACHE_DIR"] = directory
    os.environ.pop("NO_CACHE", None)
    try:
        return run()
    finally:
        if before is None:
            del os.environ["COMPWA_CACHE_DIR"]
        else:
            os.environ["COMPWA_CACHE_DIR"] = before
        shutil.rmtree(directory, ignore_errors=True)


def history_body(case, ctx):  # noqa: ARG001
    def run():
        totals = {"repeats": 0, "jax": 0, "updates": 0}
        for n, ops in enumerate(case["processes"]):
            try:
                result = forked(lambda ops=ops: run_process(case, ops))
            except Violation as e:
                raise Violation(f"process {n}: {e}") from None
            for k, v in result.items():
                totals[k] += v
        return totals

    totals = in_scratch_cache(run)
    keys = [tuple(op[1:4]) for ops in case["processes"] for op in ops if op[0] == "lambdify"]
    across = len(case["processes"]) > 1 and len(set(keys)) < len(keys)
    return {
        "nontrivial": bool(len(keys) > 1 and len(set(keys)) < len(keys) or totals["updates"]),
        "hit in memory": totals["repeats"] > 0,
        "met again in another process": across,
        "parameters updated with other functions around": totals["updates"] > 0,
        "jax": totals["jax"] > 0,
        "both backends": len({k[2] for k in keys}) == 2,
        "processes": len(case["processes"]),
    }


# --------------------------------------------------------------- whole models
@st.composite
def model_cases(draw):
    return {
        "decay": draw(gens.decay_cases(max_helicities=4, max_resonances=2, need_ls=True, max_two_spin_resonance=3, max_L=2)),
        "kin": draw(gens.kinematics(max_size=3)),
        "min_ls": draw(st.booleans()),
        "salt": draw(gens.salts()),
        "backend": draw(st.sampled_from(["numpy", "numpy", "jax"])),
    }


def model_body(case, ctx):  # noqa: ARG001
    kin = gens.build_kinematics(case["kin"])
    decay = gens.build_decay(case["decay"], case["kin"]["masses"])
    with under_test("formulate"):
        model = DalitzPlotDecompositionBuilder(decay, min_ls=case["min_ls"]).formulate()
    expected = models.intensity(model, kin, case["salt"])
    defaults = dict(model.parameter_defaults)
    defaults.update(models.couplings_of(model, case["salt"]))
    data = {f"sigma{k}": kin.sigma[k] for k in (1, 2, 3)}

    def task():
        with under_test("lambdify(full_expression)"):
            expr = model.full_expression.doit().xreplace({k: v.doit() for k, v in model.variables.items()})
        for n in range(2):
            with under_test("lambdify(full_expression)"):
                func = lambdify(expr, defaults, backend=case["backend"])
                got = np.asarray(func(data))
            check(close(got, expected, 1e-7), lambda: f"intensity {got}, not {expected} (call {n})")
            func.update_parameters(dict.fromkeys(func.parameters, 1.5))
        return {}

    in_scratch_cache(lambda: forked(task))
    return {"nontrivial": len(case["decay"]["chains"]) > 1, "backend": case["backend"]}


def _prepare():
    logging.getLogger("ampform.sympy._cache").setLevel(logging.ERROR)
    # imported before the processes are forked, without starting a backend
    import jax  # noqa: F401, PLC0415


_prepare()

SUBS = [
    Sub("history", histories, history_body, 640, 20000, "one expression is lambdified again with the same arguments, or parameters are updated while other functions exist", min_nontrivial=0.3),
    Sub("models", model_cases, model_body, 40, 1500, "the model has several chains", min_nontrivial=0.2),
]
