"""Generated amplitude-model definitions (amplitude-serialization format)."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vf import gens, phys

PAIR = phys.CYCLIC
NAMES = ["L1405", "K892", "D1232", "L1520", "K1430", "N(1535)"]
STATE_NAMES = [["Lc", "p", "pi", "K"], ["B0", "J/psi", "K+", "pi-"], ["Xib", "p", "K1", "K2"]]
LATEX = {
    "L1405": R"\Lambda(1405)",
    "K892": "K^*(892)",
    "D1232": R"\Delta(1232)",
    "L1520": R"\Lambda(1520)",
    "K1430": "K_0^*(1430)",
    "N(1535)": "N(1535)",
    "Lc": R"\Lambda_c^+",
    "p": "p",
    "pi": R"\pi^+",
    "K": "K^-",
    "B0": "B^0",
    "J/psi": R"J/\psi",
    "K+": "K^+",
    "pi-": R"\pi^-",
    "Xib": R"\Xi_b^-",
    "K1": "K^-_1",
    "K2": "K^-_2",
}


def to_latex(name: str) -> str:
    return LATEX[name]


def fraction(two_x: int) -> str:
    return f"{two_x}/2" if two_x % 2 else str(two_x // 2)


def thousandths(low: int, high: int):
    return st.integers(low, high).map(lambda x: x / 1000)


WEIGHT_FORMATS = [
    "{re} {sign} {abs}i", "{re}{im:+}i", "{re} {sign} {abs:.6e}i", "{re}",
    "{re:.6e} {sign} {abs:.6e}i", "{re:.6E}{im:+}i", "{im}i", "{im:+.6e}i", None,
]


@st.composite
def lineshapes(draw, kin, k, radius=None, custom=False):
    """Parameters of the function of a resonance in the pair with number `k`."""
    m = kin["masses"]
    i, j = PAIR[k]
    low, high = m[i] + m[j], m[0] - m[k]
    kinds = ["BreitWigner"] * 4 + ["MultichannelBreitWigner"] * 3 + (["Custom"] if custom else [])

    def channel():
        return {
            "gsq": draw(thousandths(20, 900)),
            "ma": draw(thousandths(10, 800)),
            "mb": draw(thousandths(10, 800)),
            "l": draw(st.sampled_from([0, 0, 0, 1, 1, 2, 2, 3, 5])),
            "d": draw(thousandths(500, 5000)),
        }

    return {
        "type": draw(st.sampled_from(kinds)),
        "mass": round(low + (high - low) * draw(st.integers(5, 95)) / 100, 6),
        "width": draw(thousandths(5, 500)),
        "l": draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3, 3, 4, 6])),
        "d": radius if radius is not None else draw(thousandths(500, 5000)),
        "channels": [channel() for _ in range(draw(st.sampled_from([2, 2, 2, 2, 3, 3, 5])))],
        "slope": draw(thousandths(1, 1000)),
    }


@st.composite
def definitions(
    draw,
    max_helicities: int = 16,
    max_resonances: int = 3,
    max_chains: int = 6,
    custom: bool = False,
    ls_vertices: bool = False,
    free_radii: bool = False,
    max_two_spin: int = 5,
    share_names: bool = False,
):
    """JSON-like description of a model definition; see `build`."""
    kin = draw(gens.kinematics(max_size=2))
    spins = draw(gens.spin_choices(max_helicities))
    radius = draw(thousandths(500, 3000))
    resonances, used = [], []
    for r in range(draw(st.sampled_from(range(1, max_resonances + 1)))):
        k = draw(st.sampled_from([1, 2, 3]))
        i, j = PAIR[k]
        tJ = draw(st.sampled_from([
            t for t in range(max_two_spin + 1) if (t + spins[i] + spins[j]) % 2 == 0
        ]))
        name = NAMES[r]
        if share_names and used and draw(st.integers(0, 4)) == 0:
            name = draw(st.sampled_from(used))
            if any((x["name"], x["k"], x["tJ"]) == (name, k, tJ) for x in resonances):
                continue
        used.append(name)
        resonances.append({
            "name": name,
            "k": k,
            "tJ": tJ,
            "lineshape": draw(lineshapes(kin, k, None if free_radii else radius, custom)),
            "variant": draw(st.integers(0, 1)),
        })
    chains, seen = [], set()
    n_chains = draw(st.sampled_from(range(1, max_chains + 1)))
    for n in range(n_chains):
        r = n if n < len(resonances) else draw(st.integers(0, len(resonances) - 1))
        res = resonances[r]
        k = res["k"]
        i, j = PAIR[k]
        tR = draw(st.sampled_from(phys.projections(res["tJ"])))
        hel = [draw(st.sampled_from(phys.projections(spins[n]))) for n in (k, i, j)]
        key = (res["name"], tR, *hel, k if share_names else None)
        if key in seen:
            continue
        seen.add(key)

        def vertex(a, b, two_spins):
            types = ["helicity", "parity", "parity"] + (["ls"] if ls_vertices else [])
            tJ, ta, tb = two_spins
            couplings = phys.allowed_ls(tJ, ta, tb, 4)
            if not couplings:
                types = [t for t in types if t != "ls"]
            v = {
                "type": draw(st.sampled_from(types)),
                "helicities": [a, b],
                "factor": draw(st.sampled_from(["+", "-", "-", "", " + ", None])),
                "reversed": draw(st.booleans()),
                "ff": draw(st.sampled_from([None, None, 0, 1, 2])),
                "blank": draw(st.booleans()),
            }
            if couplings:
                v["ls"] = list(draw(st.sampled_from(couplings)))
            return v

        chains.append({
            "res": r,
            "prod": vertex(tR, hel[0], (spins[0], res["tJ"], spins[k])),
            "dec": {
                **vertex(hel[1], hel[2], (res["tJ"], spins[i], spins[j])),
                "reversed": False,
            },
            "weight": [draw(st.integers(-3000, 3000)) / 1000, draw(st.integers(-3000, 3000)) / 1000],
            "weight format": draw(st.integers(0, len(WEIGHT_FORMATS) - 1)),
            "vertices reversed": draw(st.booleans()),
            "topology reversed": draw(st.booleans()),
        })
    factors = {
        "dec": [{"l": draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3, 3, 4, 6])), "radius": draw(thousandths(500, 5000)) if free_radii else radius} for _ in range(3)],
        "prod": [{"l": draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3, 3, 4, 6])), "radius": draw(thousandths(500, 5000))} for _ in range(3)],
    }
    if not free_radii:
        for f in factors["prod"]:
            f["radius"] = factors["prod"][0]["radius"]
    return {
        "kin": kin,
        "spins": spins,
        "names": draw(st.integers(0, len(STATE_NAMES) - 1)),
        "order": draw(st.permutations([1, 2, 3])),
        "reference": [draw(st.sampled_from([1, 2, 3])), draw(st.integers(0, 3))],
        "resonances": resonances,
        "chains": chains,
        "form factors": factors,
        "shuffle": draw(st.integers(0, 100)),
    }


def weight_value(chain) -> complex:
    re, im = chain["weight"]
    text = WEIGHT_FORMATS[chain["weight format"]] or "{re}"
    return complex(re if "{re" in text else 0, im if text.endswith("i") else 0)


def weight_text(chain) -> str | float:
    re, im = chain["weight"]
    if WEIGHT_FORMATS[chain["weight format"]] is None:
        return re
    return WEIGHT_FORMATS[chain["weight format"]].format(re=re, im=im, sign="-" if im < 0 else "+", abs=abs(im))


def topology(k: int, flipped: bool, inner_reversed: bool = False) -> list:
    pair = list(PAIR[k])
    if inner_reversed:
        pair = pair[::-1]
    return [k, pair] if flipped else [pair, k]


def function_name(r: int, res) -> str:
    return f"{res['name']}_{r}_{res['lineshape']['type']}"


def build_chain(case, chain) -> dict:
    res = case["resonances"][chain["res"]]
    k = res["k"]
    pair = list(PAIR[k])

    def vertex(v, node, kind):
        node, hel = list(node), list(v["helicities"])
        if v["reversed"]:
            node, hel = node[::-1], hel[::-1]
        out = {"type": v["type"], "node": node}
        if v["type"] == "ls":
            out["l"] = str(v["ls"][0])
            out["s"] = fraction(v["ls"][1])
        else:
            out["helicities"] = [fraction(h) for h in hel]
        if v["type"] == "parity" and v["factor"] is not None:
            out["parity_factor"] = v["factor"]
        if v["ff"] is not None:
            out["formfactor"] = f"BlattWeisskopf_{kind}_{v['ff']}"
        elif v["blank"]:
            out["formfactor"] = ""
        return out

    vertices = [vertex(chain["prod"], [pair, k], "prod"), vertex(chain["dec"], pair, "dec")]
    if chain["vertices reversed"]:
        vertices = vertices[::-1]
    return {
        "name": res["name"],
        "propagators": [{
            "spin": fraction(res["tJ"]),
            "node": pair,
            "parametrization": function_name(chain["res"], res),
        }],
        "weight": weight_text(chain),
        "vertices": vertices,
        "topology": topology(k, chain["topology reversed"]),
    }


def build_function(name, shape, kin, k) -> dict:
    m = kin["masses"]
    i, j = PAIR[k]
    kind = shape["type"]
    out = {"name": name, "type": kind, "mass": shape["mass"]}
    if kind == "BreitWigner":
        out.update(width=shape["width"], l=shape["l"], d=shape["d"], ma=m[i], mb=m[j])
    elif kind == "MultichannelBreitWigner":
        out["channels"] = [
            {**c, **({"ma": m[i], "mb": m[j]} if n == 0 else {})} for n, c in enumerate(shape["channels"])
        ]
    else:
        out.update(width=shape["width"], slope=shape["slope"])
    return out


def build(case, chains=None) -> dict:
    """The model definition; `chains`: indices of the chains, in order."""
    names = STATE_NAMES[case["names"]]
    states = [
        {"index": n, "name": names[n], "spin": fraction(case["spins"][n]), "mass": case["kin"]["masses"][n]}
        for n in range(4)
    ]
    functions = [
        build_function(function_name(r, res), res["lineshape"], case["kin"], res["k"])
        for r, res in enumerate(case["resonances"])
    ]
    for kind, ffs in case["form factors"].items():
        functions += [{"name": f"BlattWeisskopf_{kind}_{n}", "type": "BlattWeisskopf", **f} for n, f in enumerate(ffs)]
    shift = case["shuffle"] % len(functions)
    functions = functions[shift:] + functions[:shift]
    reference, variant = case["reference"]
    chosen = range(len(case["chains"])) if chains is None else chains
    return {
        "distributions": [{
            "name": "default",
            "type": "HadronicUnpolarizedIntensity",
            "decay_description": {
                "kinematics": {
                    "initial_state": states[0],
                    "final_state": [states[n] for n in case["order"]],
                },
                "reference_topology": topology(reference, bool(variant & 1), bool(variant & 2)),
                "chains": [build_chain(case, case["chains"][n]) for n in chosen],
            },
            "variables": [],
        }],
        "functions": functions,
        "domains": [],
        "misc": {},
        "parameter_points": [],
    }


# --------------------------------------------------------------------- oracle


def vertex_value(v, ta: int, tb: int, two_spins=None) -> float:
    """Recoupling factor for helicities in the order of the canonical node."""
    if v["type"] == "ls":
        tJ, t1, t2 = two_spins
        L, tS = v["ls"]
        if v["reversed"]:
            return phys.recoupling(L, tS, tJ, t2, tb, t1, ta)
        return phys.recoupling(L, tS, tJ, t1, ta, t2, tb)
    a, b = v["helicities"]
    value = float((ta, tb) == (a, b))
    if v["type"] == "parity":
        f = {"+": 1, "-": -1, "": 0, None: 1}[v["factor"] if v["factor"] is None else v["factor"].strip()]
        value += f * float((ta, tb) == (-a, -b))
    return value


def lineshape_value(shape, kin, k: int):
    """Value at the defaults, with the masses of the pair as in `build_function`."""
    i, j = PAIR[k]
    s = kin.sigma[k]
    m0 = shape["mass"]
    if shape["type"] == "BreitWigner":
        return energy_dependent_bw(s, m0, shape["width"], kin.m[i], kin.m[j], shape["l"], shape["d"])
    if shape["type"] == "MultichannelBreitWigner":
        return multichannel_bw(s, m0, [
            (c["gsq"], *((kin.m[i], kin.m[j]) if n == 0 else (c["ma"], c["mb"])), c["l"], c["d"])
            for n, c in enumerate(shape["channels"])
        ])
    return custom_value(shape, s)


def custom_value(shape, s):
    return np.exp(-shape["slope"] * s) / (shape["mass"] ** 2 - s - 1j * shape["mass"] * shape["width"])


def energy_dependent_bw(s, m0, width, ma, mb, L, d):
    q, q0 = (phys.breakup_momentum(x, ma, mb) for x in (s, m0**2))
    ratio = phys.blatt_weisskopf_squared((q * d) ** 2, L) / phys.blatt_weisskopf_squared((q0 * d) ** 2, L)
    running = width * ratio * (q / np.sqrt(s)) / (q0 / m0)
    if L == 0 and ma == 0 and mb == 0:
        running = width
    return 1 / (m0**2 - s - 1j * m0 * running)


def multichannel_bw(s, m0, channels):
    total = 0
    for gsq, ma, mb, L, d in channels:
        z = (phys.breakup_momentum(s, ma, mb) * d) ** 2
        total = total + gsq * m0 / np.sqrt(s) * phys.blatt_weisskopf_squared(z, L)
    return 1 / (m0**2 - s - 1j * m0 * total)


def form_factors_value(case, chain, kin):
    res = case["resonances"][chain["res"]]
    k = res["k"]
    i, j = PAIR[k]
    value = 1.0
    if chain["prod"]["ff"] is not None:
        f = case["form factors"]["prod"][chain["prod"]["ff"]]
        value = value * phys.form_factor(kin.m[0] ** 2, np.sqrt(kin.sigma[k]), kin.m[k], f["l"], f["radius"])
    if chain["dec"]["ff"] is not None:
        f = case["form factors"]["dec"][chain["dec"]["ff"]]
        value = value * phys.form_factor(kin.sigma[k], kin.m[i], kin.m[j], f["l"], f["radius"])
    return value


def amplitudes(case, kin) -> dict:
    """amplitudes[k][helicities]: sum over the chains of subsystem k."""
    spins = case["spins"]
    out: dict = {}
    for chain in case["chains"]:
        res = case["resonances"][chain["res"]]
        k = res["k"]
        i, j = PAIR[k]
        shape = weight_value(chain) * lineshape_value(res["lineshape"], kin, k) * form_factors_value(case, chain, kin)
        table = out.setdefault(k, {})
        for hel in phys.helicity_combinations(spins):
            tR = hel[0] + hel[k]
            value = 0.0
            if abs(tR) <= res["tJ"] and (res["tJ"] - tR) % 2 == 0:
                h = vertex_value(chain["prod"], tR, hel[k]) * vertex_value(chain["dec"], hel[i], hel[j])
                if h:
                    d = phys.wigner_d(res["tJ"], tR, hel[i] - hel[j], kin.scattering(i, j))
                    value = h * shape * d
            table[hel] = table.get(hel, 0.0) + value
    return out


def intensity(case, kin):
    amps = amplitudes(case, kin)
    reference = case["reference"][0]
    total = np.zeros(kin.sigma[1].shape)
    for hel in phys.helicity_combinations(case["spins"]):
        total = total + np.abs(phys.align(kin, case["spins"], amps, reference, hel)) ** 2
    return total
