"""Evaluate formulated models, and their reference counterparts."""

from __future__ import annotations

import re

import numpy as np
import sympy as sp

from vf import phys
from vf.gens import PAIR, coupling_value, resonance_latex
from vf.harness import Violation, under_test
from vf.interp import Evaluator, kinematic_values, two

COUPLING = re.compile(r"^\\mathcal\{H\}\^\\mathrm\{(LS,)?(production|decay)\}$")


def parse_coupling(symbol: sp.Indexed):
    """(kind, latex, *indices as integers) of a coupling or coefficient symbol."""
    name = str(symbol.base.label)
    match = COUPLING.match(name)
    if match:
        basis = "LS" if match.group(1) else "helicity"
        r, a, b = symbol.indices
        if basis == "LS":
            return (match.group(2), "LS", str(r), int(a), two(b))
        return (match.group(2), "helicity", str(r), two(a), two(b))
    return ("coefficient", name, *symbol.indices)


def owner(symbol: sp.Indexed, names) -> str:
    """LaTeX name of the resonance in the label of a coefficient."""
    label = str(symbol.base.label)
    names = set(names)
    matches = {n for n in names if re.search(rf"[{{,]{re.escape(n)}[,}}]", label)}
    matches = matches or {n for n in names if n in label}
    matches = {n for n in matches if not any(n != m and n in m for m in matches)}
    if len(matches) != 1:
        raise Violation(f"{symbol} belongs to resonances {sorted(matches)}")
    return matches.pop()


def is_coupling(symbol) -> bool:
    return isinstance(symbol, sp.Indexed)


def couplings_of(model, salt: int) -> dict:
    return {
        s: coupling_value(salt, *parse_coupling(s))
        for s in model.parameter_defaults
        if is_coupling(s)
    }


def model_values(model, kin: phys.Kinematics, salt: int | None = None, overrides=None) -> dict:
    """Numerical values of all symbols of a model that are not definitions."""
    values = {s: v for s, v in model.parameter_defaults.items()}
    if salt is not None:
        values.update(couplings_of(model, salt))
    values.update(kinematic_values(kin))
    if overrides:
        values.update(overrides)
    return values


def evaluator(model, kin, salt=None, overrides=None) -> Evaluator:
    with under_test("values of the model parameters"):
        values = model_values(model, kin, salt, overrides)
    return Evaluator(values, {**model.amplitudes, **model.variables})


def intensity(model, kin, salt=None, overrides=None):
    ev = evaluator(model, kin, salt, overrides)
    with under_test("evaluation of the intensity"):
        value = ev(model.intensity)
    value = np.broadcast_to(np.asarray(value, dtype=complex), kin.sigma[1].shape)
    if not np.all(np.isfinite(value)):
        raise Violation(f"intensity is not finite: {value}")
    if np.any(np.abs(value.imag) > 1e-8 * (1 + np.abs(value))):
        raise Violation(f"intensity is not real: {value}")
    return value.real


# ------------------------------------------------------------------- oracle


def node_recoupling(chain, spins, which: str):
    """LS coefficient as function of helicities, for the order of the children in the node."""
    k = chain["k"]
    i, j = PAIR[k]
    tJ = chain["tJ"]
    if which == "production":
        L, tS = chain["prod"]

        def coefficient(tR, tk):
            if chain["swap"][0]:
                return phys.recoupling(L, tS, spins[0], spins[k], tk, tJ, tR)
            return phys.recoupling(L, tS, spins[0], tJ, tR, spins[k], tk)

    else:
        L, tS = chain["dec"]

        def coefficient(ti, tj):
            if chain["swap"][1]:
                return phys.recoupling(L, tS, tJ, spins[j], tj, spins[i], ti)
            return phys.recoupling(L, tS, tJ, spins[i], ti, spins[j], tj)

    return coefficient


def reference_couplings(chain, spins, salt, helicity_basis: tuple[bool, bool]):
    """(h_prod, h_dec) helicity coupling functions of a chain."""
    latex = resonance_latex(chain)
    if helicity_basis[0]:
        def h_prod(tR, tk):
            return coupling_value(salt, "production", "helicity", latex, tR, tk)
    else:
        p = coupling_value(salt, "production", "LS", latex, chain["prod"][0], chain["prod"][1])
        p_coef = node_recoupling(chain, spins, "production")

        def h_prod(tR, tk):
            return p * p_coef(tR, tk)
    if helicity_basis[1]:
        def h_dec(ti, tj):
            return coupling_value(salt, "decay", "helicity", latex, ti, tj)
    else:
        d = coupling_value(salt, "decay", "LS", latex, chain["dec"][0], chain["dec"][1])
        d_coef = node_recoupling(chain, spins, "decay")

        def h_dec(ti, tj):
            return d * d_coef(ti, tj)
    return h_prod, h_dec


def reference_amplitudes(case, kin, salt, helicity_basis, lineshapes=None):
    """amplitudes[k][hel] for all subsystems with chains."""
    spins = case["spins"]
    hels = phys.helicity_combinations(spins)
    amplitudes: dict = {}
    for n, chain in enumerate(case["chains"]):
        h_prod, h_dec = reference_couplings(chain, spins, salt, helicity_basis)
        x = 1.0 if lineshapes is None else lineshapes[n]
        amps = amplitudes.setdefault(chain["k"], {})
        for hel in hels:
            a = phys.chain_amplitude(kin, spins, hel, chain["k"], chain["tJ"], h_prod, h_dec)
            if isinstance(a, float) and a == 0.0:
                amps.setdefault(hel, 0.0)
                continue
            amps[hel] = amps.get(hel, 0.0) + x * a
    return amplitudes


def reference_intensity(case, kin, salt, helicity_basis, reference, lineshapes=None, amplitudes=None):
    spins = case["spins"]
    if amplitudes is None:
        amplitudes = reference_amplitudes(case, kin, salt, helicity_basis, lineshapes)
    total = np.zeros_like(kin.sigma[1])
    for hel in phys.helicity_combinations(spins):
        total = total + np.abs(phys.align(kin, spins, amplitudes, reference, hel)) ** 2
    return total
