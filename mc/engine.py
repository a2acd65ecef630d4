"""Bounded exhaustive explicit-state explorer: bookkeeping, parallel job runner, evidence.

A check module (``checks/<id>.py``) defines

* ``TITLE``, ``ASSUMPTIONS`` (list of str), ``SPACE`` (str: what is enumerated)
* ``jobs(tier) -> list of JSON-serialisable job descriptions``: a partition of the
  bounded space; together the jobs cover it completely
* ``run(job, rec)``: explores one part exhaustively

Counting (everything is measured while running):
* ``states``       distinct model states (histories / configurations) in which the
                   implementation was compared with the reference model
* ``transitions``  steps of the model (event appended, operation executed,
                   argument changed) that were taken to reach these states
* ``traces``       model traces replayed against the implementation
                   (i.e. real calls whose result was compared)
"""
from __future__ import annotations

import contextlib
import hashlib
import importlib
import json
import logging
import os
import pathlib
import signal
import sys
import time
import traceback
import types
import warnings

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("PYIRF_REPO", "/repo"))
MAX_VIOLATIONS_PER_JOB = 8
JOB_TIMEOUT = {"quick": 300, "thorough": 3000}


class Mismatch(AssertionError):
    """The implementation disagrees with the reference model."""


class StopJob(Exception):
    """Enough violations were collected in this job."""


class JobTimeout(BaseException):
    pass


class Recorder:
    def __init__(self, prop, job, only_case=None):
        self.prop = prop
        self.job = job
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.violations = []
        self.samples = []
        self.outcomes = set()
        self._case = None
        self.only_case = only_case

    # -- counters
    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, obj):
        """Note an observed outcome (to measure that the exploration is not vacuous)."""
        if len(self.outcomes) < 20000:
            self.outcomes.add(hashlib.blake2b(repr(obj).encode(), digest_size=6).hexdigest())

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:600])

    # -- cases
    @contextlib.contextmanager
    def case(self, *descr, states=1, steps=1, traces=1, key=None):
        """One explored state: any exception raised inside is a violation."""
        self.cases += 1
        self.states += states
        self.transitions += steps
        self.traces += traces
        text = None
        try:
            yield self
        except (StopJob, KeyboardInterrupt, HarnessError):
            raise
        except Exception as e:  # noqa: BLE001 - crash of the implementation == violation
            text = describe(descr)
            where = ""
            if not isinstance(e, Mismatch):
                tb = traceback.extract_tb(e.__traceback__)
                frames = [f"{pathlib.Path(f.filename).name}:{f.lineno}" for f in tb[-4:]]
                where = " at " + ">".join(frames)
            self.violations.append(
                dict(
                    case=self.cases,
                    key=key,
                    descr=text,
                    message=f"{type(e).__name__}: {e}"[:1500] + where,
                )
            )
            if len(self.violations) >= MAX_VIOLATIONS_PER_JOB:
                raise StopJob() from None
        else:
            if len(self.samples) < 2 and (self.cases in (1, 17)):
                self.sample(describe(descr))

    def result(self):
        return dict(
            job=self.job,
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            cases=self.cases,
            violations=self.violations,
            samples=self.samples,
            outcomes=list(self.outcomes),
        )


def frames_of(e):
    res = []
    while e is not None:
        res += traceback.extract_tb(e.__traceback__)
        e = e.__cause__ or e.__context__
    return res


def from_implementation(e):
    """Was the exception raised in (or below) code of the repository under test?"""
    return any(pathlib.Path(f.filename).resolve().is_relative_to(REPO.resolve() / "pyirf") for f in frames_of(e))


def where_in(e):
    return " at " + ">".join(f"{pathlib.Path(f.filename).name}:{f.lineno}" for f in frames_of(e)[-4:])


class HarnessError(Exception):
    """The harness itself is broken (never reported as a violation)."""


def describe(obj):
    if isinstance(obj, tuple):
        return " ".join(describe(o) for o in obj)
    if callable(obj) and not isinstance(obj, type):
        return describe(obj())
    if isinstance(obj, str):
        return obj
    return " ".join(repr(obj).split())


def load(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def _alarm(signum, frame):
    raise JobTimeout()


def _run_job(args):
    prop, job, tier = args
    import numpy as np

    mod = load(prop)
    rec = Recorder(prop, job)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOB_TIMEOUT[tier])
    error = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.run(job, rec)
    except StopJob:
        pass
    except JobTimeout:
        rec.violations.append(
            dict(case=rec.cases, key=None, descr=f"job {job}",
                 message=f"no answer within {JOB_TIMEOUT[tier]} s"))
    except Exception as e:  # harness bug, or a crash of the implementation outside of a case
        # the exploration is deterministic and finishes on a correct implementation, such
        # errors come from results of the implementation that are used outside of a case
        used = isinstance(e, (AssertionError, AttributeError, TypeError, ValueError, LookupError, ArithmeticError))
        if from_implementation(e) or used:
            rec.violations.append(dict(case=rec.cases, key=None, descr=f"job {job} after {rec.cases} cases",
                                       message="".join(traceback.format_exception_only(e))[:500] + where_in(e)))
        else:
            error = traceback.format_exc()
    finally:
        signal.alarm(0)
    res = rec.result()
    res["wall"] = time.time() - t0
    res["error"] = error
    return res


def known_findings(prop):
    """{key: text} of the recorded findings of this property (never written at run time)."""
    res = {}
    path = ROOT / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("finding: "):
                head, _, text = line[len("finding: "):].partition(" :: ")
                fields = dict(f.split("=", 1) for f in head.split())
                if fields.get("property") == prop:
                    res[fields["key"]] = text
    return res


def setup_imports():
    for p in (str(REPO), str(ROOT)):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import pyirf

    if not pathlib.Path(pyirf.__file__).resolve().is_relative_to(REPO.resolve()):
        raise HarnessError(f"wrong pyirf: {pyirf.__file__}")


def main(prop, tier, workers=None, only_job=None):
    from concurrent.futures import ProcessPoolExecutor, as_completed
    import multiprocessing

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    setup_imports()
    logging.disable(logging.CRITICAL)
    try:
        mod = load(prop)
        jobs = mod.jobs(tier)
    except Exception as e:  # noqa: BLE001
        if not from_implementation(e):
            raise
        jobs = [dict(crash=f"{type(e).__name__}: {e}"[:500] + where_in(e))]
        mod = types.SimpleNamespace(SPACE="nothing, the implementation crashed before the exploration", ASSUMPTIONS=[])
    if only_job is not None:
        jobs = [jobs[only_job]]
    workers = workers or min(len(jobs), os.cpu_count() or 1, 8)
    results = []
    if "crash" in jobs[0]:
        results = [dict(job=jobs[0], states=1, transitions=1, traces=1, cases=1, samples=[], outcomes=[], wall=0.0, error=None,
                        violations=[dict(case=1, key=None, descr="first calls of the public API", message=jobs[0]["crash"])])]
    elif workers <= 1:
        results = [_run_job((prop, j, tier)) for j in jobs]
    else:
        with ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context("fork")) as ex:
            args = [(prop, j, tier) for j in jobs]
            if os.environ.get("MC_FAILFAST"):  # development aid: stop after the first job with a violation
                for f in as_completed([ex.submit(_run_job, a) for a in args]):
                    results.append(f.result())
                    if results[-1]["violations"]:
                        for p in list(ex._processes.values()):
                            p.kill()
                        break
            else:
                results = list(ex.map(_run_job, args))

    results = sorted(results, key=lambda r: jobs.index(r["job"]))
    errors = [r["error"] for r in results if r["error"]]
    violations = [(r["job"], v) for r in results for v in r["violations"]]
    known = known_findings(prop)
    new, listed = [], {}
    for job, v in violations:
        if v["key"] is not None and v["key"] in known:
            listed[v["key"]] = known[v["key"]]
        else:
            new.append((job, v))

    samples = [s for r in results for s in r["samples"]][:12]
    outcomes = set().union(*[set(r["outcomes"]) for r in results]) if results else set()
    tot = {k: sum(r[k] for r in results) for k in ("states", "transitions", "traces")}
    capped = bool(errors) or any(len(r["violations"]) >= MAX_VIOLATIONS_PER_JOB for r in results)
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=tot["states"],
            transitions=tot["transitions"],
            traces_validated_against_impl=tot["traces"],
            distinct_outcomes=len(outcomes),
            jobs=len(results),
            exhaustive=not capped,
            explanation=" ".join(mod.SPACE.split()),
            samples=samples or ["(none)"],
        ),
        assumptions=[" ".join(a.split()) for a in getattr(mod, "ASSUMPTIONS", [])],
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    for key, text in listed.items():
        print(f"KNOWN-FINDING: property={prop} {text}")
    print(
        f"{prop} [{tier}] states={tot['states']} transitions={tot['transitions']} "
        f"traces={tot['traces']} outcomes={len(outcomes)} jobs={len(results)} "
        f"wall={evidence['wall_s']}s slowest={max((r['wall'] for r in results), default=0):.1f}s"
    )
    if os.environ.get("MC_VERBOSE"):
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print(f"   {r['wall']:.1f}s cases={r['cases']} {json.dumps(r['job'])[:150]}")
    if new:
        d = ROOT / "replays"
        d.mkdir(exist_ok=True)
        for i, (job, v) in enumerate(new[:10]):
            path = d / f"{prop}-{i}.json"
            path.write_text(json.dumps(dict(property=prop, tier=tier, job=job, **v), indent=1) + "\n")
            print(f"VIOLATION property={prop} replay={path.relative_to(ROOT)}")
            print(f"   state: {v['descr'][:700]}")
            print(f"   {v['message'][:700]}")
        for e in errors[:1]:
            print("also a harness error:\n" + e, file=sys.stderr)
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0], file=sys.stderr)
        return 2
    if not results or tot["states"] == 0:
        print("HARNESS ERROR: nothing explored", file=sys.stderr)
        return 2
    return 0


def replay(prop, path):
    setup_imports()
    logging.disable(logging.CRITICAL)
    data = json.loads(pathlib.Path(path).read_text())
    res = _run_job((prop, data["job"], data["tier"]))
    for v in res["violations"]:
        if v["case"] == data["case"]:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   state: {v['descr']}")
            print(f"   {v['message']}")
            return 1
    print("the recorded case does not fail")
    return 0
