"""C18: tables and LaTeX render every decay completely and well-formed."""

import collections
import re

import sympy as sp
from hypothesis import strategies as st

from ampform_dpd import DalitzPlotDecompositionBuilder, DefinedExpression
from ampform_dpd.decay import IsobarNode, Particle, State, ThreeBodyDecay
from ampform_dpd.io import as_markdown_table, aslatex, simplify_latex_rendering
from vf import gens
from vf.harness import Sub, check, expect_rejection, under_test

SEQUENCES = {"tuple": tuple, "list": list, "deque": collections.deque, "UserList": collections.UserList}
MASSES = [4.5, 0.9, 0.3, 0.5]


# ------------------------------------------------------------------- tables


def jp(two_spin, parity):
    spin = str(two_spin // 2) if two_spin % 2 == 0 else Rf"\frac{{{two_spin}}}{{2}}"
    if parity is None:
        return f"J={spin}"
    return f"{spin}^{'+' if parity > 0 else '-'}"


def parse_table(src):
    check(isinstance(src, str), f"table is a {type(src)}")
    lines = [line.strip() for line in src.strip().split("\n")]
    rows = []
    for line in lines:
        check(line.startswith("|") and line.endswith("|"), f"row {line!r} is not closed")
        rows.append([cell.strip() for cell in line[1:-1].split("|")])
    check(len(rows) >= 2, "no header")
    header, separator, *body = rows
    check(
        len(separator) == len(header) and all(re.fullmatch(r":?-{3,}:?", c) for c in separator),
        f"separator {separator} of header {header}",
    )
    for row in body:
        check(len(row) == len(header), f"row {row} has {len(row)} cells, header has {len(header)}")
    return header, body


def check_mev(cell, value, what):
    try:
        number = float(cell.replace(",", ""))
    except ValueError:
        check(False, f"{what} is {cell!r}")
    check(abs(number - 1e3 * value) < 1 + 1e-6 * value, f"{what} is {cell} MeV, should be {1e3 * value} MeV")


def math(cell):
    check(cell.startswith("$") and cell.endswith("$") and len(cell) > 2, f"cell {cell!r} is no formula")
    return cell[1:-1]


def column(header, *words):
    found = [i for i, h in enumerate(header) if all(w.lower() in h.lower() for w in words)]
    check(len(found) == 1, f"columns {found} for {words} in {header}")
    return found[0]


@st.composite
def decay_table_cases(draw):
    return {
        "decay": draw(gens.decay_cases(
            max_helicities=60, max_resonances=5, need_ls=draw(st.sampled_from([None, True])), max_chains_per_resonance=3
        )),
        "drop": draw(st.sampled_from(["", "prod", "dec", "both", "some"])),
        "masses": draw(st.lists(st.integers(0, 12_000_000), min_size=6, max_size=6)),
        "as": draw(st.sampled_from(["decay", "tuple", "list", "deque", "UserList"])),
    }


def drop_ls(case):
    chains = []
    for n, c in enumerate(case["decay"]["chains"]):
        c = dict(c)
        c["mass"] = case["masses"][n % 6] / 1e6
        c["width"] = case["masses"][(n + 1) % 6] / 1e7
        if case["drop"] in {"prod", "both"} or (case["drop"] == "some" and n % 2):
            c["prod"] = None
        if case["drop"] in {"dec", "both"} or (case["drop"] == "some" and n % 3 == 0):
            c["dec"] = None
        chains.append(c)
    return {**case["decay"], "chains": chains}


def body_decay_table(case, ctx):
    d = drop_ls(case)
    decay = gens.build_decay(d, MASSES)
    obj = decay if case["as"] == "decay" else SEQUENCES[case["as"]](decay.chains)
    with under_test("as_markdown_table"):
        header, rows = parse_table(as_markdown_table(obj))
    check(len(rows) == len(d["chains"]), f"{len(rows)} rows for {len(d['chains'])} chains")
    has = {x: any(c[x] is not None for c in d["chains"]) for x in ("prod", "dec")}
    check(len(header) == 4 + sum(has.values()), f"columns are {header}")
    for c, row in zip(d["chains"], rows):
        i, j = gens.PAIR[c["k"]]
        if c["swap"][1]:
            i, j = j, i
        parent, _, products = math(row[column(header, "resonance")]).partition(R"\to")
        check(parent.strip() == gens.resonance_latex(c), f"resonance {parent}")
        check(
            products.split() == [gens.state_latex(d, i), gens.state_latex(d, j)],
            f"decay products of {parent} are {products}",
        )
        check(math(row[column(header, "J^P")]) == jp(c["tJ"], c["parity"]), f"spin-parity of {c} in {row}")
        check_mev(row[column(header, "mass")], c["mass"], "mass")
        check_mev(row[column(header, "width")], c["width"], "width")
        for x in ("prod", "dec"):
            if has[x]:
                cell = row[column(header, "L_", x)]
                want = "" if c[x] is None else str(c[x][0])
                check(cell == want, f"L of {x} vertex is {cell!r}, not {want!r}")
    return {
        "nontrivial": len(rows) > 1 and any(has.values()),
        "LS": "".join(x[0] for x in has if has[x]),
        "partly": any(c[x] is None for c in d["chains"] for x in has if has[x]),
    }


@st.composite
def particle_cases(draw):
    particle = st.tuples(
        st.sampled_from(["p", "K*(892)~0", "Lambda(c)(2595)+", "πx"]),
        st.sampled_from(["p", R"\Lambda_c^+", R"\overline{K}^{*}(892)^{0}"]),
        st.integers(0, 9),
        st.sampled_from([None, 1, -1]),
        st.integers(0, 12_000_000),
        st.integers(0, 1_000_000),
        st.sampled_from([None, None, 0, 1, 2, 3]),
    ).map(list)
    return {
        "items": draw(st.lists(particle, min_size=1, max_size=6)),
        "as": draw(st.sampled_from(list(SEQUENCES))),
        "kind": draw(st.sampled_from(["mixed", "states", "particles"])),
    }


def build_particle(p):
    name, latex, two_spin, parity, mass, width, index = p
    kwargs = {} if index is None else {"index": index}
    cls = Particle if index is None else State
    return cls(
        name=name, latex=latex, spin=sp.Rational(two_spin, 2), parity=parity,
        mass=mass / 1e6, width=width / 1e6, **kwargs,
    )


def body_particles(case, ctx):
    items = [list(p) for p in case["items"]]
    for n, p in enumerate(items):
        if case["kind"] == "particles":
            p[6] = None
        elif case["kind"] == "states" and p[6] is None:
            p[6] = n % 4
    objects = [build_particle(p) for p in items]
    with under_test("as_markdown_table"):
        header, rows = parse_table(as_markdown_table(SEQUENCES[case["as"]](objects)))
    with_index = any(p[6] is not None for p in items)
    check(len(rows) == len(items), f"{len(rows)} rows for {len(items)} particles")
    check(len(header) == 5 + with_index, f"columns are {header}")
    for (name, latex, two_spin, parity, mass, width, index), row, obj in zip(items, rows, objects):
        check(row[column(header, "name")].strip("`") == name, f"name of {name} in {row}")
        check(math(row[column(header, "LaTeX")]) == latex, f"LaTeX of {name} in {row}")
        check(math(row[column(header, "J^P")]) == jp(two_spin, parity), f"spin-parity of {name} in {row}")
        check_mev(row[column(header, "mass")], mass / 1e6, "mass")
        check_mev(row[column(header, "width")], width / 1e6, "width")
        if with_index:
            want = "" if index is None else str(index)
            check(row[column(header, "index")] == want, f"index of {name} in {row}")
        with under_test("aslatex"):
            check(aslatex(obj) == latex, f"LaTeX of {obj}")
            check(aslatex(obj, only_jp=True) == jp(two_spin, parity), f"spin-parity of {obj}")
            both = aslatex(obj, with_jp=True)
        check(both.startswith(latex) and jp(two_spin, parity) in both[len(latex):], f"{both} for {obj}")
    return {"nontrivial": len(items) > 1, "kind": case["kind"]}


def invalid_cases():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["empty", "numbers", "mixed", "mixed", "mixed-particle", "strings", "nodes"]),
        "decay": gens.decay_cases(max_helicities=10, max_resonances=2),
    })


def body_invalid(case, ctx):
    decay = gens.build_decay(case["decay"], MASSES)
    obj = {
        "empty": [],
        "numbers": [1, 2],
        "mixed": [decay.chains[0], decay.states[1]],
        "mixed-particle": [decay.chains[0].resonance, *decay.chains],
        "strings": ["a", "b"],
        "nodes": [decay.chains[0].decay],
    }[case["kind"]]
    with expect_rejection(f"table of {case['kind']}"):
        as_markdown_table(obj)
    return {"nontrivial": True, "kind": case["kind"]}


# -------------------------------------------------------------------- LaTeX


@st.composite
def latex_cases(draw):
    return {
        "decay": draw(gens.decay_cases(max_helicities=60, max_resonances=4, max_chains_per_resonance=2)),
        "drop": draw(st.sampled_from(["", "prod", "dec", "some"])),
        "masses": [1000] * 6,
        "with_jp": draw(st.booleans()),
        "what": draw(st.sampled_from(["decay", "chain", "node", "production", "list"])),
    }


def balanced(latex):
    depth = 0
    for i, ch in enumerate(latex):
        if ch in "{}" and (i == 0 or latex[i - 1] != "\\"):
            depth += 1 if ch == "{" else -1
            check(depth >= 0, f"braces in {latex}")
    check(depth == 0, f"braces in {latex}")
    for environment in set(re.findall(r"\\(?:begin|end)\{(\w+)\}", latex)):
        counts = [latex.count(Rf"\{x}{{{environment}}}") for x in ("begin", "end")]
        check(counts[0] == counts[1], f"begin and end of {environment} in {latex}")
    check(latex.count(R"\left") == latex.count(R"\right"), f"brackets in {latex}")


def tokens(chain_case, spins, what):
    """Pre-order list of (marker, spin-parity, LS) of the particles in a chain."""
    c = chain_case
    k = c["k"]
    i, j = gens.PAIR[k]
    if c["swap"][1]:
        i, j = j, i
    parities = [1, 1, -1, -1]

    def state(n):
        return (f"S_{{{n}}}", jp(spins[n], parities[n]), False)

    node = [(f"R_{{{c['res']}}}", jp(c["tJ"], c["parity"]), c["dec"] or "none"), state(i), state(j)]
    if what == "node":
        return node
    top = (*state(0)[:2], c["prod"] or "none")
    return [top, state(k), *node] if c["swap"][0] else [top, *node, state(k)]


def marked(node, numbers):
    """The same node with unmistakable LaTeX for every particle."""
    import attrs

    def mark(x):
        if isinstance(x, IsobarNode):
            return IsobarNode(mark(x.parent), mark(x.child1), mark(x.child2), x.interaction)
        if isinstance(x, State):
            return attrs.evolve(x, latex=f"S_{{{x.index}}}")
        return attrs.evolve(x, latex=f"R_{{{numbers[x.name]}}}")

    return mark(node)


MARKER = re.compile(r"[RS]_\{\d+\}")


def check_latex(latex, expected, with_jp):
    balanced(latex)
    found = list(MARKER.finditer(latex))
    check(
        [m.group() for m in found] == [t[0] for t in expected],
        lambda: f"particles in {latex} are not in the order {[t[0] for t in expected]}",
    )
    for n, (m, (_, spin_parity, ls)) in enumerate(zip(found, expected)):
        end = found[n + 1].start() if n + 1 < len(found) else len(latex)
        text = latex[m.end() : end]
        check((spin_parity in text) == with_jp or not with_jp, f"no spin-parity {spin_parity} after {m.group()} in {latex}")
        if not with_jp:
            check("^" not in text and "J=" not in text, f"spin-parity after {m.group()} in {latex}")
        if ls is False:
            check("L=" not in text and R"\to" not in text, f"arrow after {m.group()} in {latex}")
        elif ls == "none":
            check(R"\to" in text and "L=" not in text and "S=" not in text, f"no plain arrow in {text}")
        else:
            S = sp.Rational(ls[1], 2)
            check(re.search(rf"L={ls[0]}(?!\d)", text) is not None, f"no L={ls[0]} in {text}")
            check(
                re.search(rf"S={re.escape(str(S))}(?![\d/])", text) is not None
                or f"S={sp.latex(S)}" in text,
                f"no S={S} in {text}",
            )


def body_latex(case, ctx):
    d = drop_ls(case)
    decay = gens.build_decay(d, MASSES)
    numbers = {gens.resonance_name(c): c["res"] for c in d["chains"]}
    from ampform_dpd.decay import ThreeBodyDecayChain

    chains = [ThreeBodyDecayChain(marked(c.decay, numbers)) for c in decay.chains]
    states = {i: marked(s, numbers) for i, s in decay.states.items()}
    new = ThreeBodyDecay(states, chains)
    kwargs = {"with_jp": True} if case["with_jp"] else {}
    what = case["what"]
    with under_test("aslatex"):
        if what in {"decay", "list"}:
            latex = aslatex(new if what == "decay" else list(chains), **kwargs)
            expected = [t for c in d["chains"] for t in tokens(c, d["spins"], "chain")]
        else:
            c, chain = d["chains"][0], chains[0]
            obj = {"chain": chain, "node": chain.decay_node, "production": chain.decay}[what]
            latex = aslatex(obj, **kwargs)
            expected = tokens(c, d["spins"], what)
    check_latex(latex, expected, case["with_jp"])
    return {
        "nontrivial": any(t[2] not in {False, "none"} for t in ((a, b, str(x) if isinstance(x, list) else x) for a, b, x in expected)),
        "what": what,
        "with_jp": case["with_jp"],
        "swapped": any(any(c["swap"]) for c in d["chains"]),
    }


@st.composite
def expression_cases(draw):
    return {
        "n": draw(st.integers(0, 5)),
        "unfold": draw(st.booleans()),
        "values": draw(st.lists(st.integers(-9, 9), min_size=5, max_size=5)),
    }


def body_expression(case, ctx):
    """Dynamics expressions are rendered with their definition and parameters."""
    from ampform.dynamics.form_factor import FormFactor

    symbols = sp.symbols("alpha_1:6")
    s = sp.Symbol("s")
    expr = sum(symbols[: case["n"]], s)
    if case["unfold"]:
        expr = FormFactor(expr, 1, 2, angular_momentum=1)
    parameters = {x: v + 0.5 for x, v in zip(symbols[: case["n"]], case["values"])}
    with under_test("aslatex"):
        latex = aslatex(DefinedExpression(expr, parameters))
    balanced(latex)
    check(sp.latex(expr) in latex, f"no {sp.latex(expr)} in {latex}")
    if case["unfold"]:
        check(sp.latex(expr.doit(deep=False)) in latex, f"no definition in {latex}")
    for x, v in parameters.items():
        rows = [r for r in latex.split("\n") if r.strip().startswith(sp.latex(x) + " ") and "&=&" in r and str(v) in r]
        check(len(rows) == 1, f"{len(rows)} rows for {x} = {v} in {latex}")
    return {"nontrivial": case["n"] > 0, "unfolded": case["unfold"]}


@st.composite
def model_cases(draw):
    return {
        "decay": draw(gens.decay_cases(max_helicities=16, max_resonances=3)),
        "reference": draw(st.sampled_from([1, 2, 3])),
        "coefficients": draw(st.booleans()),
        "simplify": draw(st.booleans()),
        "base": draw(st.sampled_from(["A", R"\mathcal{H}^\mathrm{x}", "g_1", "B0"])),
        "indices": draw(st.lists(st.sampled_from(["i", "lambda1", "1/2", "-3/2", "0", "2"]), min_size=1, max_size=4)),
        "twice": draw(st.booleans()),
    }


def body_models(case, ctx):
    """Models are rendered with all of their amplitudes, couplings and angles."""
    decay = gens.build_decay(case["decay"], MASSES)
    builder = DalitzPlotDecompositionBuilder(decay)
    indexed = sp.Indexed.__dict__.get("_latex")
    try:
        if case["simplify"]:
            with under_test("simplify_latex_rendering"):
                for _ in range(1 + case["twice"]):
                    simplify_latex_rendering()
        with under_test("formulation"):
            model = builder.formulate(case["reference"], use_coefficients=case["coefficients"])
        exprs = [model.intensity, *model.amplitudes.values()]
        for expr in exprs[:12]:
            with under_test("aslatex"):
                latex = aslatex(expr)
            balanced(latex)
            for symbol in expr.atoms(sp.Indexed):
                text = sp.latex(symbol)
                check(text in latex, lambda: f"{text} does not occur in {latex}")
                check(sp.latex(symbol.base) in text, lambda: f"no {symbol.base} in {text}")
        for symbol, expr in model.variables.items():
            with under_test("aslatex"):
                balanced(aslatex(symbol))
                balanced(aslatex(expr))
        with under_test("aslatex"):
            table = aslatex(model.parameter_defaults)
        balanced(table)
        for symbol in model.parameter_defaults:
            check(sp.latex(symbol) in table, lambda: f"{symbol} does not occur in {table}")
        if case["simplify"]:
            base = sp.IndexedBase(case["base"])
            indices = [sp.Symbol(i) if i[0].isalpha() else sp.Rational(i) for i in case["indices"]]
            with under_test("LaTeX of an indexed symbol"):
                latex = sp.latex(base[tuple(indices)])
            expected = f"{sp.latex(base)}_{{{', '.join(map(sp.latex, indices))}}}"
            check(latex == expected, f"{base[tuple(indices)]} is rendered as {latex}, not {expected}")
    finally:
        if indexed is None:
            if "_latex" in sp.Indexed.__dict__:
                del sp.Indexed._latex
        else:
            sp.Indexed._latex = indexed
    return {"nontrivial": len(model.amplitudes) > 1, "simplified": case["simplify"], "coefficients": case["coefficients"]}


SUBS = [
    Sub("decay-table", decay_table_cases, body_decay_table, 2500, 30000, "several chains, some with LS", min_nontrivial=0.4),
    Sub("particle-table", particle_cases, body_particles, 1500, 15000, "more than one particle", min_nontrivial=0.4),
    Sub("invalid", invalid_cases, body_invalid, 100, 1500, "something that is no particle or chain", shards=2),
    Sub("latex", latex_cases, body_latex, 2500, 30000, "a vertex has LS couplings", min_nontrivial=0.25),
    Sub("expression", expression_cases, body_expression, 160, 1000, "there are parameters", shards=4),
    Sub("models", model_cases, body_models, 320, 3000, "more than one amplitude", min_nontrivial=0.4),
]
ASSUMPTIONS = ["names and LaTeX have no | character, which separates the cells of a table"]
