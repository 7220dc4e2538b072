"""Independent evaluation of a model definition, straight from its JSON content."""

from __future__ import annotations

import copy
import json
from fractions import Fraction
from pathlib import Path

import numpy as np

from vf import phys, serial

PATH = Path(__file__).parents[2] / "corpus" / "Lc2ppiK.json"
_SOURCE: dict = {}


def load() -> dict:
    if not _SOURCE:
        _SOURCE["model"] = json.loads(PATH.read_text())
    return copy.deepcopy(_SOURCE["model"])


def description_of(model: dict) -> dict:
    return model["distributions"][0]["decay_description"]


def two(text) -> int:
    value = 2 * Fraction(text)
    assert value.denominator == 1
    return int(value)


def number(text: str) -> complex:
    return complex(text.replace(" ", "").replace("i", "j"))


def states_of(model: dict) -> list[dict]:
    kinematics = description_of(model)["kinematics"]
    states = [kinematics["initial_state"], *kinematics["final_state"]]
    return sorted(states, key=lambda s: s["index"])


def relabel(model: dict, mapping: dict) -> dict:
    """The same model with other numbers for the final states."""
    model = copy.deepcopy(model)
    description = description_of(model)

    def rename(node):
        return [rename(x) if isinstance(x, list) else mapping[x] for x in node]

    for state in description["kinematics"]["final_state"]:
        state["index"] = mapping[state["index"]]
    description["reference_topology"] = rename(description["reference_topology"])
    for chain in description["chains"]:
        chain["topology"] = rename(chain["topology"])
        for item in (*chain["propagators"], *chain["vertices"]):
            item["node"] = rename(item["node"])
    return model


def _function(model, name) -> dict:
    found = [f for f in model["functions"] if f["name"] == name]
    assert len(found) == 1
    return found[0]


def lineshape(model, name, s):
    f = _function(model, name)
    if f["type"] == "BreitWigner":
        return serial.energy_dependent_bw(s, f["mass"], f["width"], f["ma"], f["mb"], f["l"], f["d"])
    if f["type"] == "MultichannelBreitWigner":
        return serial.multichannel_bw(s, f["mass"], [(c["gsq"], c["ma"], c["mb"], c["l"], c["d"]) for c in f["channels"]])
    assert f["type"] == "BreitWignerWidthExpLikeBugg"
    return None


def bugg(s, mass, width, slope, m1, m2):
    adler = m1**2 - m2**2 / 2
    return 1 / (mass**2 - s - 1j * (s - adler) / (mass**2 - adler) * mass * width * np.exp(-slope * s))


def vertex(v, helicities: dict) -> float:
    """`helicities`: of the particles of the node; the pair of the resonance is "R"."""
    got = tuple(helicities["R" if isinstance(x, list) else x] for x in v["node"])
    want = tuple(two(h) for h in v["helicities"])
    value = float(got == want)
    if v["type"] == "parity":
        value += {"+": 1, "-": -1}[v["parity_factor"]] * float(got == tuple(-h for h in want))
    return value


def intensity(model, kin):
    states = states_of(model)
    spins = [two(s["spin"]) for s in states]
    description = description_of(model)
    amps: dict = {}
    for chain in description["chains"]:
        (prop,) = chain["propagators"]
        i, j = prop["node"]
        (k,) = {1, 2, 3} - {i, j}
        assert phys.CYCLIC[k] == (i, j)
        tJ = two(prop["spin"])
        s = kin.sigma[k]
        shape = lineshape(model, prop["parametrization"], s)
        if shape is None:
            f = _function(model, prop["parametrization"])
            shape = bugg(s, f["mass"], f["width"], f["slope"], kin.m[i], kin.m[j])
        for v in chain["vertices"]:
            if not v["formfactor"]:
                continue
            f = _function(model, v["formfactor"])
            if any(isinstance(x, list) for x in v["node"]):
                shape = shape * phys.form_factor(kin.m[0] ** 2, np.sqrt(s), kin.m[k], f["l"], f["radius"])
            else:
                shape = shape * phys.form_factor(s, kin.m[i], kin.m[j], f["l"], f["radius"])
        table = amps.setdefault(k, {})
        for hel in phys.helicity_combinations(spins):
            tR = hel[0] + hel[k]
            value = 0.0
            if abs(tR) <= tJ:
                named = {"R": tR, 1: hel[1], 2: hel[2], 3: hel[3]}
                h = np.prod([vertex(v, named) for v in chain["vertices"]])
                if h:
                    value = h * number(chain["weight"]) * shape * phys.wigner_d(tJ, tR, hel[i] - hel[j], kin.scattering(i, j))
            table[hel] = table.get(hel, 0.0) + value
    (reference,) = [x for x in description["reference_topology"] if isinstance(x, int)]
    return sum(
        np.abs(phys.align(kin, spins, amps, reference, hel)) ** 2
        for hel in phys.helicity_combinations(spins)
    )
