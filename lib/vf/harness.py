"""Runs the generated-input checks of one property and reports on them.

A property module (checks/cNN.py) defines ``PROPERTY`` and ``SUBS``, a list of `Sub`.
Each `Sub` has a Hypothesis strategy of JSON-like cases and a body, which decides one
case. A body returns labels that classify the case, or raises `Violation`. Exceptions
that come out of the code under test on a case in the domain of the property are
violations as well; any other exception is an error of the check (exit code 2).
"""

from __future__ import annotations

import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

HERE = Path(__file__).resolve().parents[2]
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


class Violation(Exception):
    """The property does not hold for the case at hand."""


class HarnessError(Exception):
    """The check itself is broken."""


def spoil(*objects) -> None:
    """Modify dictionaries and lists that were returned, as far as they can be modified."""
    for x in objects:
        try:
            if isinstance(x, dict):
                for key in list(x)[::2]:
                    x[key] = None
                for key in list(x)[1::2]:
                    del x[key]
                x["spoilt"] = "spoilt"
            elif isinstance(x, list):
                x.reverse()
                x.append("spoilt")
                del x[0]
        except (TypeError, AttributeError):  # read-only
            pass


@contextlib.contextmanager
def under_test(what: str):
    """Exceptions in this block are the fault of the code under test."""
    try:
        yield
    except (Violation, HarnessError, KeyboardInterrupt):
        raise
    except Exception as e:
        tail = traceback.format_exc(limit=-4)
        msg = f"{what}: unexpected {type(e).__name__}: {e}\n{tail}"
        raise Violation(msg) from e


@contextlib.contextmanager
def expect_rejection(what: str, *types: type[BaseException]):
    """The block has to raise an exception (of one of the types)."""
    types = types or (Exception,)
    try:
        yield
    except types:
        return
    except Exception as e:
        msg = f"{what}: rejected with {type(e).__name__} instead of {[t.__name__ for t in types]}: {e}"
        raise Violation(msg) from e
    raise Violation(f"{what}: accepted, but should be rejected")


def check(condition: Any, msg: str | Callable[[], str]) -> None:
    if not condition:
        raise Violation(msg() if callable(msg) else msg)


@dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]
    body: Callable[[Any, "Ctx"], Any]
    quick: int
    thorough: int
    rule: str
    shards: int = 8
    min_nontrivial: float = 0.0  # fraction of distinct cases; below this the check reports an error
    fork: bool = True


@dataclass
class Ctx:
    tier: str
    known: set[str] = field(default_factory=set)
    hits: Counter = field(default_factory=Counter)
    known_ids: dict = field(default_factory=dict)

    def known_finding(self, finding_id: str, detail: str) -> None:
        """Record a listed finding; a finding that is not listed is a violation."""
        if finding_id not in self.known_ids:
            raise Violation(f"[{finding_id}] {detail}")
        self.hits[finding_id] += 1


@dataclass
class Result:
    sub: str
    evaluations: int = 0
    distinct: set = field(default_factory=set)
    nontrivial: set = field(default_factory=set)
    labels: Counter = field(default_factory=Counter)
    samples: list = field(default_factory=list)
    hits: Counter = field(default_factory=Counter)
    failure: tuple | None = None  # (case, message)
    error: str | None = None
    skipped: int = 0
    wall: float = 0.0


def canonical(case: Any) -> str:
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def _from_repo(e: BaseException) -> bool:
    tb = e.__traceback__
    src = str(REPO / "src")
    found = False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(src):
            found = True
        tb = tb.tb_next
    return found


CASE_SECONDS = 200  # cases take seconds; one that takes minutes does not end


class _Endless(BaseException):
    pass


@contextlib.contextmanager
def time_limit():
    def interrupt(signum, frame):  # noqa: ARG001
        raise _Endless

    before = signal.signal(signal.SIGALRM, interrupt)
    signal.alarm(CASE_SECONDS)
    try:
        yield
    except _Endless:
        msg = f"no result after {CASE_SECONDS} seconds"
        raise Violation(msg) from None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, before)


def run_case(sub: Sub, case: Any, ctx: Ctx) -> Any:
    try:
        with time_limit():
            return sub.body(case, ctx)
    except Violation:
        raise
    except (HarnessError, ImportError, MemoryError, OSError):
        raise
    except Exception as e:
        # Either the code under test failed, or it returned something that no oracle can
        # read (which does not happen for any generated case on the unchanged tree).
        tail = traceback.format_exc(limit=-5)
        where = "in the code under test" if _from_repo(e) else "reading its result"
        raise Violation(f"unexpected {type(e).__name__} {where}: {e}\n{tail}") from e


SHRINK_SECONDS = {"quick": 60.0, "thorough": 240.0}
if "VERIF_SHRINK" in os.environ:  # seconds; 0 reports the first failure as it is
    SHRINK_SECONDS = dict.fromkeys(SHRINK_SECONDS, float(os.environ["VERIF_SHRINK"]))


def run_shard(
    sub: Sub,
    seed: int,
    n_examples: int,
    tier: str,
    known_ids: dict,
    deadline: float,
    stop,
) -> Result:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = Result(sub.name)
    ctx = Ctx(tier, known_ids=known_ids)
    start = time.time()
    failures: dict[str, str] = {}
    first_failure: list[float] = []
    last: list = []

    def decide(case) -> str | None:
        """The message of the violation, if any (one raise site for all: see body)."""
        text = canonical(case)
        if text in failures:
            return failures[text]
        if first_failure and time.time() - first_failure[0] > SHRINK_SECONDS[tier]:
            return None
        if time.time() > deadline or (not first_failure and stop.is_set()):
            res.skipped += 1
            return None
        h = hashlib.sha1(text.encode()).hexdigest()
        if not first_failure:
            res.evaluations += 1
            res.distinct.add(h)
        last[:] = [case]
        try:
            labels = run_case(sub, case, ctx)
        except Violation as e:
            failures[text] = str(e)
            if not first_failure:
                first_failure.append(time.time())
                stop.set()
            return str(e)
        if first_failure:
            return None
        labels = labels or {}
        if isinstance(labels, (set, list, tuple)):
            labels = dict.fromkeys(labels, True)
        labels = dict(labels)
        nontrivial = labels.pop("nontrivial", True)
        for k, v in labels.items():
            if v is not False:
                res.labels[k if v is True else f"{k}={v}"] += 1
        if nontrivial:
            if h not in res.nontrivial and len(res.samples) < 3:
                res.samples.append(case)
            res.nontrivial.add(h)
        return None

    def body(case):
        message = decide(case)
        if message is not None:
            last[:] = [case, message]
            raise Violation(message)

    test = given(sub.strategy())(body)
    test = settings(
        max_examples=n_examples,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        print_blob=False,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        with open(os.devnull, "w") as devnull, contextlib.redirect_stdout(devnull):
            test()
    except Violation:
        res.failure = (last[0], last[1])
    except BaseException as e:  # noqa: BLE001
        if failures and type(e).__name__ in {"Flaky", "FlakyFailure", "FlakyReplay", "FlakyStrategyDefinition"}:
            text, msg = min(failures.items(), key=lambda kv: len(kv[0]))
            res.failure = (json.loads(text), msg)
        else:
            case = "" if not last else f"\ncase: {canonical(last[0])[:2000]}"
            res.error = traceback.format_exc(limit=-12) + case
    res.hits = ctx.hits
    res.wall = time.time() - start
    return res


_STATE: dict[str, Any] = {}


def _task(args):
    idx, seed, n = args
    try:
        return run_shard(
            _STATE["subs"][idx],
            seed,
            n,
            _STATE["tier"],
            _STATE["known"],
            _STATE["deadline"],
            _STATE["stop"],
        )
    except BaseException:  # noqa: BLE001
        return Result(_STATE["subs"][idx].name, error=traceback.format_exc())


def load_known(prop: str) -> dict:
    path = HERE / "known_findings.json"
    if not path.exists():
        return {}
    data = json.loads(path.read_text())
    return {
        f["id"]: f
        for f in data["findings"]
        if f["property"] == prop and f["status"] == "open"
    }


def main(args) -> int:  # noqa: C901
    t0 = time.time()
    prop = args.property
    tier = args.tier if args.tier in {"quick", "thorough"} else "quick"
    verif_seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        module = importlib.import_module(prop.lower())
    except Exception:
        traceback.print_exc()
        return 2
    subs: list[Sub] = module.SUBS
    if args.sub:
        subs = [s for s in subs if s.name in args.sub]
    known = load_known(prop)
    if args.replay:
        return replay(prop, module.SUBS, args.replay, tier, known)
    n_jobs = args.jobs or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "7200"))
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    tasks = []
    for idx, sub in enumerate(subs):
        total = max(1, int((sub.quick if tier == "quick" else sub.thorough) * args.scale))
        shards = max(1, min(sub.shards, total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            digest = hashlib.sha1(f"{prop}/{sub.name}/{s}/{verif_seed}".encode()).digest()
            tasks.append((idx, int.from_bytes(digest[:6], "big"), n))
    tasks.sort(key=lambda t: t[1])
    _STATE.update(subs=subs, tier=tier, known=known, deadline=t0 + budget, stop=stop)
    results: list[Result] = []
    if n_jobs == 1:
        results = [_task(t) for t in tasks]
    else:
        with ctx.Pool(n_jobs) as pool:
            results.extend(pool.imap_unordered(_task, tasks))
    return report(prop, module, subs, results, tier, verif_seed, known, t0)


def report(prop, module, subs, results, tier, seed, known, t0) -> int:
    wall = time.time() - t0
    hits: Counter = Counter()
    per_sub = {}
    evaluations = nontrivial = 0
    samples = []
    for sub in subs:
        rs = [r for r in results if r.sub == sub.name]
        n = sum(r.evaluations for r in rs)
        nt = len(set().union(*(r.nontrivial for r in rs)))
        distinct = len(set().union(*(r.distinct for r in rs)))
        labels: Counter = Counter()
        for r in rs:
            labels.update(r.labels)
            hits.update(r.hits)
        evaluations += n
        nontrivial += nt
        sub_samples = [s for r in rs for s in r.samples]
        sub_samples = sorted(sub_samples, key=lambda s: len(canonical(s)))
        mid = sub_samples[len(sub_samples) // 2 :][:1]
        samples.extend({"sub": sub.name, "case": s} for s in mid)
        per_sub[sub.name] = {
            "evaluations": n,
            "distinct": distinct,
            "distinct_nontrivial": nt,
            "rule": sub.rule,
            "labels": dict(labels.most_common(60)),
            "skipped_on_time_budget": sum(r.skipped for r in rs),
            "cpu_s": round(sum(r.wall for r in rs), 1),
        }
    failures = [(r.sub, *r.failure) for r in results if r.failure]
    failures.sort(key=lambda f: (len(canonical(f[1])), f[0]))
    errors = [r for r in results if r.error]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": getattr(module, "RULE", "; ".join(f"{s.name}: {s.rule}" for s in subs)),
            "samples": samples,
            "checks": per_sub,
            "known_findings_hit": dict(hits),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=False))
    for s, info in per_sub.items():
        print(
            f"[{prop}/{s}] {info['evaluations']} cases, {info['distinct_nontrivial']} distinct"
            f" non-trivial, {info['cpu_s']} cpu-s"
            + (f", {info['skipped_on_time_budget']} skipped" if info["skipped_on_time_budget"] else "")
        )
    for fid, n in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={prop} {known[fid]['what']} (seen in {n} cases)")
    if failures:
        (HERE / "replays").mkdir(exist_ok=True)
        sub_name, case, msg = failures[0]
        digest = hashlib.sha1((sub_name + canonical(case)).encode()).hexdigest()[:10]
        path = HERE / "replays" / f"{prop}-{sub_name}-{digest}.json"
        path.write_text(
            json.dumps({"property": prop, "sub": sub_name, "case": case, "message": msg}, indent=1)
        )
        print(f"--- {sub_name}: {str(msg)[:3000]}\ncase: {canonical(case)[:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for r in errors[:3]:
            print(f"ERROR in {r.sub}:\n{r.error}", file=sys.stderr)
        return 2
    for sub in subs:
        info = per_sub[sub.name]
        if info["distinct_nontrivial"] < sub.min_nontrivial * info["distinct"]:
            print(f"ERROR: {sub.name} is vacuous: {info}", file=sys.stderr)
            return 2
        if info["evaluations"] == 0:
            print(f"ERROR: {sub.name} ran no case", file=sys.stderr)
            return 2
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={evaluations} wall={wall:.1f}s")
    return 0


def replay(prop, subs, path, tier, known) -> int:
    data = json.loads(Path(path).read_text())
    sub = next(s for s in subs if s.name == data["sub"])
    ctx = Ctx(tier, known_ids=known)
    try:
        labels = run_case(sub, data["case"], ctx)
    except Violation as e:
        print(f"--- {sub.name}: {str(e)[:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for fid in ctx.hits:
        print(f"KNOWN-FINDING: property={prop} {known[fid]['what']}")
    print(f"replay: property held ({labels})")
    return 0
