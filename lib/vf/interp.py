"""Numerical evaluation of SymPy expressions made by the code under test.

Sums over helicities (PoolSum) are looped over numerically, so that no symbolic
`doit()` of the (large) intensity is needed. Wigner d functions and CG coefficients
have the meaning that SymPy gives them, everything else is evaluated generically.
"""

from __future__ import annotations

from itertools import product

import numpy as np
import sympy as sp
from ampform.sympy import PoolSum
from sympy.core.function import AppliedUndef
from sympy.physics.quantum.cg import CG
from sympy.physics.quantum.spin import WignerD

from vf import phys
from vf.harness import HarnessError, Violation


def two(x) -> int:
    r = 2 * sp.Rational(x)
    if r.q != 1:
        raise Violation(f"{x} is not a multiple of 1/2")
    return int(r.p)


_FUNCS = {
    sp.acos: np.arccos,
    sp.asin: np.arcsin,
    sp.atan: np.arctan,
    sp.cos: np.cos,
    sp.sin: np.sin,
    sp.tan: np.tan,
    sp.exp: np.exp,
    sp.log: np.log,
    sp.Abs: np.abs,
    sp.re: np.real,
    sp.im: np.imag,
    sp.conjugate: np.conj,
    sp.arg: np.angle,
    sp.sign: np.sign,
}


class Evaluator:
    """Evaluate expressions given values of symbols and definitions of symbols."""

    def __init__(self, values: dict, definitions: dict | None = None) -> None:
        """`values`: numbers or arrays; `definitions`: further expressions."""
        self.values = dict(values)
        self.definitions = dict(definitions or {})
        self._cache: dict = {}
        self._free: dict = {}
        self._in_progress: set = set()

    # -- helpers ---------------------------------------------------------------
    def _bound(self, expr, env) -> tuple:
        free = self._free.get(expr)
        if free is None:
            free = tuple(sorted((s for s in expr.free_symbols if isinstance(s, sp.Symbol)), key=str))
            self._free[expr] = free
        return tuple((s, env[s]) for s in free if s in env)

    def exact(self, expr, env):
        """Value of an index expression as an exact number."""
        expr = sp.sympify(expr)
        if isinstance(expr, sp.Number):
            return expr
        bound = self._bound(expr, env)
        key = ("exact", expr, bound)
        if key not in self._cache:
            value = expr.xreplace(dict(bound))
            if value.free_symbols:
                subs = {s: self.values[s] for s in value.free_symbols if s in self.values}
                value = value.xreplace({k: sp.nsimplify(v) for k, v in subs.items()})
            value = sp.sympify(value).doit()
            if not value.is_number:
                raise Violation(f"index {expr} has no value (got {value})")
            self._cache[key] = value
        return self._cache[key]

    def __call__(self, expr, env: dict | None = None):
        env = env or {}
        expr = sp.sympify(expr)
        return self._eval(expr, env)

    # -- evaluation --------------------------------------------------------------
    def _eval(self, expr, env):  # noqa: C901
        if isinstance(expr, sp.Number) or expr.is_Atom and expr.is_number:
            return complex(expr)
        bound = self._bound(expr, env)
        key = (expr, bound)
        cached = self._cache.get(key)
        if cached is not None:
            return cached
        if key in self._in_progress:
            raise Violation(f"circular definition of {expr}")
        self._in_progress.add(key)
        try:
            value = self._eval_node(expr, env)
        finally:
            self._in_progress.discard(key)
        self._cache[key] = value
        return value

    def _eval_node(self, expr, env):  # noqa: C901, PLR0911, PLR0912
        if isinstance(expr, sp.Indexed):
            indices = tuple(
                i if not i.free_symbols and not i.is_number else self.exact(i, env)
                for i in expr.indices
            )
            concrete = expr.func(expr.base, *indices)
            return self._lookup(concrete)
        if isinstance(expr, sp.Symbol):
            if expr in env:
                return complex(env[expr])
            return self._lookup(expr)
        if isinstance(expr, PoolSum):
            symbols = [s for s, _ in expr.indices]
            total = 0j
            for combi in product(*(v for _, v in expr.indices)):
                total = total + self._eval(expr.expression, {**env, **dict(zip(symbols, combi))})
            return total
        if isinstance(expr, sp.Add):
            total = 0j
            for a in expr.args:
                total = total + self._eval(a, env)
            return total
        if isinstance(expr, sp.Mul):
            total = 1 + 0j
            for a in sorted(expr.args, key=_cost):
                total = total * self._eval(a, env)
                if isinstance(total, complex) and total == 0:
                    return 0j
            return total
        if isinstance(expr, sp.Pow):
            base, exponent = self._eval(expr.base, env), self._eval(expr.exp, env)
            if isinstance(exponent, complex) and exponent.imag == 0 and exponent.real == round(exponent.real):
                n = int(round(exponent.real))
                if isinstance(base, complex) and base == 0 and n < 0:
                    return complex("nan")
                return base**n
            return np.power(np.asarray(base, dtype=complex), exponent)
        if isinstance(expr, WignerD):
            j, m, mp, alpha, beta, gamma = expr.args
            if self.exact(alpha, env) != 0 or self.exact(gamma, env) != 0:
                raise HarnessError(f"general Wigner D functions not supported: {expr}")
            tj, tm, tmp = (two(self.exact(x, env)) for x in (j, m, mp))
            value = phys.wigner_d(tj, tm, tmp, np.real(self._eval(beta, env)))
            return complex(value) if np.ndim(value) == 0 else value.astype(complex)
        if isinstance(expr, CG):
            return complex(phys.clebsch_gordan(*(two(self.exact(x, env)) for x in expr.args)))
        if isinstance(expr, sp.KroneckerDelta):
            a, b = (self.exact(x, env) for x in expr.args)
            return 1 + 0j if sp.Eq(a, b) == True else 0j  # noqa: E712
        if isinstance(expr, sp.Piecewise):
            result, open_ = np.nan + 0j, np.True_
            for value, cond in expr.args:
                mask = np.logical_and(open_, self._condition(cond, env))
                if np.any(mask):
                    result = np.where(mask, self._eval(value, env), result)
                open_ = np.logical_and(open_, ~mask)
            return result if np.ndim(result) else complex(result)
        for cls, func in _FUNCS.items():
            if isinstance(expr, cls):
                return func(np.asarray(self._eval(expr.args[0], env), dtype=complex)) + 0j
        if hasattr(expr, "evaluate"):  # ampform's unevaluated expression classes
            return self._eval(sp.sympify(expr.evaluate()), env)
        if isinstance(expr, AppliedUndef):
            raise Violation(f"undefined function {expr}")
        done = expr.doit(deep=False)
        if done != expr:
            return self._eval(done, env)
        return self._fallback(expr, env)

    def _condition(self, cond, env):
        if cond == True or cond == False:  # noqa: E712
            return np.bool_(bool(cond))
        if isinstance(cond, sp.And):
            return np.logical_and.reduce([self._condition(a, env) for a in cond.args])
        if isinstance(cond, sp.Or):
            return np.logical_or.reduce([self._condition(a, env) for a in cond.args])
        if isinstance(cond, sp.Not):
            return np.logical_not(self._condition(cond.args[0], env))
        a, b = (np.real(self._eval(x, env)) for x in cond.args)
        comparison = {
            sp.Gt: np.greater, sp.Ge: np.greater_equal, sp.Lt: np.less,
            sp.Le: np.less_equal, sp.Eq: np.equal, sp.Ne: np.not_equal,
        }
        return comparison[type(cond)](a, b)

    def _fallback(self, expr, env):
        dummies = [sp.Dummy() for _ in expr.args]
        func = sp.lambdify(dummies, expr.func(*dummies), "numpy")
        return func(*(self._eval(a, env) for a in expr.args)) + 0j

    def _lookup(self, symbol):
        if symbol in self.values:
            value = self.values[symbol]
            if np.ndim(value):
                return np.asarray(value, dtype=complex)
            return complex(value)
        if symbol in self.definitions:
            return self._eval(sp.sympify(self.definitions[symbol]), {})
        raise Violation(f"symbol {symbol!r} is not defined in the model")


def _cost(expr) -> int:
    if isinstance(expr, sp.Number):
        return 0
    if isinstance(expr, sp.KroneckerDelta):
        return 1
    if isinstance(expr, (CG, sp.Symbol)):
        return 2
    if isinstance(expr, sp.Indexed):
        return 3
    return 4


def sigma_symbols():
    return dict(zip((1, 2, 3), sp.symbols("sigma1:4", nonnegative=True)))


def kinematic_values(kin: phys.Kinematics) -> dict:
    values = {s: kin.sigma[k] for k, s in sigma_symbols().items()}
    values.update({sp.Symbol(f"m{i}", nonnegative=True): kin.m[i] for i in range(4)})
    return values


def close(a, b, rtol=1e-7, atol=1e-9) -> bool:
    a, b = np.broadcast_arrays(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex))
    scale = np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(np.isfinite(a)) and np.all(np.isfinite(b)) and np.all(np.abs(a - b) <= atol + rtol * scale))
