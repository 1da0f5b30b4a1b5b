"""
Shared harness: seeded case execution, verdicts, evidence, replay files and
known-finding handling for every runtime-monitoring check in this directory.

A check is a module ``checks/<id>.py`` that exposes

* ``PROPERTY``  - the property id,
* ``RULE``      - how cases are made and what makes one non-trivial,
* ``KINDS``     - ``{name: (function, quick cases, thorough cases)}``,
* ``REQUIRED``  - ``{counter: minimum}``; a run whose monitors observed less
  than that is inconclusive (exit 2), never "held".

Each case function receives a :class:`Case`.  Its random choices come only
from ``case.rng`` which is derived from (VERIF_SEED, kind, index), so any case
can be replayed on its own.
"""

import asyncio
from collections import Counter
from contextlib import contextmanager
import faulthandler
import hashlib
import json
import logging
import os
from pathlib import Path
import random
import resource
import shutil
import signal
import struct
import sys
import tempfile
import threading
import time
import traceback

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


class Violation(Exception):
    """A monitor observed an event that refutes the property."""

    def __init__(self, signature, message, **witness):
        super().__init__(f"{signature}: {message}")
        self.signature = signature
        self.message = message
        self.witness = witness


class Inconclusive(Exception):
    """The monitor could not reach a verdict."""


class Stalled(Exception):
    """A workload made no progress although nothing was left to wait for."""


class Spinning(KeyboardInterrupt):
    """
    One case used an absurd amount of processor (or real) time.

    Derived from KeyboardInterrupt because event loops let it propagate.
    """


class Case:
    """One generated execution."""

    def __init__(self, check, kind, index, seed):
        self.check = check
        self.kind = kind
        self.index = index
        self.seed = seed
        self.rng = random.Random(f"{seed}:{check.prop}:{kind}:{index}")
        self.thorough = check.tier == "thorough"
        self.trace = []
        self._scratch = None

    # -- observations ----------------------------------------------------

    def event(self, name, amount=1):
        """Count something that a monitor actually observed."""
        self.check.counters[name] += amount

    def distinct(self, *signature):
        """Record a non-trivial case signature."""
        data = repr(signature).encode()
        self.check.signatures.add(
            self.kind + hashlib.sha1(data).hexdigest()[:16]
        )

    def sample(self, text):
        """Keep a few real cases for the evidence file."""
        kept = self.check.samples.setdefault(self.kind, [])
        if len(kept) < 2:
            kept.append(f"{self.kind}[{self.index}]: {text}"[:600])

    def note(self, text):
        """Append to this case's witness trace."""
        self.trace.append(str(text)[:400])
        if len(self.trace) > 400:
            del self.trace[:100]

    # -- oracles ---------------------------------------------------------

    def fail(self, signature, message, **witness):
        raise Violation(signature, message, **witness)

    def expect(self, cond, signature, message="", **witness):
        self.check.counters["oracle_evaluations"] += 1
        if not cond:
            raise Violation(signature, message or signature, **witness)

    def equal(self, got, want, signature, message="", **witness):
        self.check.counters["oracle_evaluations"] += 1
        if not got == want or (
            isinstance(want, bool) and not isinstance(got, (bool, int))
        ):
            raise Violation(
                signature,
                f"{message} got={short(got)} want={short(want)}",
                got=short(got, 2000),
                want=short(want, 2000),
                **witness,
            )

    def finding(self, signature, holds, message, **witness):
        """A probe whose failure may be a listed, unrepaired defect."""
        self.check.counters["oracle_evaluations"] += 1
        if not holds:
            self.check.report(
                Violation(signature, message, **witness), self
            )

    # -- resources -------------------------------------------------------

    @property
    def scratch(self) -> Path:
        """A scratch directory that's removed after the case."""
        if self._scratch is None:
            self._scratch = Path(
                tempfile.mkdtemp(prefix=f"vrf-{self.check.prop}-")
            )
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)


def short(value, limit=300):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + "..."


class CaptureLogs(logging.Handler):
    """Collects log records so that monitors can inspect them."""

    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)
        if len(self.records) > 5000:
            del self.records[:2500]


class Check:
    """Runs the kinds of one check and writes its verdict and evidence."""

    def __init__(self, module, tier, seed):
        self.module = module
        self.prop = module.PROPERTY
        self.tier = tier
        self.seed = seed
        self.counters = Counter()
        self.signatures = set()
        self.samples = {}
        self.cases = 0
        self.kind_counts = Counter()
        self.violations = []
        self.known_hits = {}
        self.errors = []
        self.stop = False
        self.start = time.monotonic()
        self.known = [
            x
            for x in load_known()
            if x["property"] == self.prop and x.get("status") == "open"
        ]
        self.budget = (
            getattr(module, "QUICK_BUDGET_S", 60.0)
            if tier == "quick"
            else getattr(module, "THOROUGH_BUDGET_S", 600.0)
        )

    def report(self, violation, case):
        for item in self.known:
            if item["signature"] == violation.signature:
                self.known_hits.setdefault(item["signature"], item)
                return
        self.violations.append((violation, case.kind, case.index, case.trace))

    # -- execution -------------------------------------------------------

    def run_case(self, kind, func, index):
        attempts = getattr(self.module, "STALL_RETRIES", 2)
        for attempt in range(attempts + 1):
            case = Case(self, kind, index, self.seed)
            try:
                with time_limit():
                    func(case)
                self.cases += 1
                self.kind_counts[kind] += 1
                return
            except Spinning as exc:
                if attempt < attempts:
                    continue
                self.stop = True
                self.report(
                    Violation(
                        "no-progress",
                        f"a case doesn't end ({attempts + 1} attempts): "
                        f"{exc}",
                        traceback=traceback.format_exc(limit=-12),
                    ),
                    case,
                )
                return
            except Violation as exc:
                exc.witness.setdefault(
                    "traceback", traceback.format_exc(limit=-8)
                )
                # Anything that depends on the wall clock is only believed
                # when re-executing the same case shows it again.
                if exc.witness.pop("confirm", False) and attempt < attempts:
                    continue
                self.cases += 1
                self.report(exc, case)
                return
            except Stalled as exc:
                if attempt < attempts:
                    continue
                self.report(
                    Violation(
                        getattr(exc, "signature", "no-progress"),
                        f"no progress ({attempts + 1} attempts): {exc}",
                    ),
                    case,
                )
                return
            except Inconclusive as exc:
                self.errors.append(f"{kind}[{index}] inconclusive: {exc}")
                return
            except (Exception, asyncio.CancelledError) as exc:
                text = traceback.format_exc()
                if repo_raised(exc):
                    self.report(
                        Violation(
                            "unexpected-exception",
                            f"{type(exc).__name__}: {short(str(exc))}",
                            traceback=text[-3000:],
                        ),
                        case,
                    )
                elif isinstance(exc, observed_types()):
                    # The workload couldn't continue because of what it got
                    # from the code (a lost connection, a missing item).
                    if attempt < attempts:
                        continue
                    self.report(
                        Violation(
                            "workload-broken",
                            f"{type(exc).__name__}: {short(str(exc))}",
                            traceback=text[-3000:],
                        ),
                        case,
                    )
                else:
                    self.errors.append(f"{kind}[{index}] harness: {text}")
                return
            finally:
                case.cleanup()

    def run(self, only=None):
        kinds = self.module.KINDS
        if only is not None:
            kind, index = only
            self.run_case(kind, kinds[kind][0], index)
            return self.finish(replay=True)

        # Interleave kinds so that a time budget never starves one of them.
        plan = []
        for order, (kind, (func, quick, thorough)) in enumerate(
            kinds.items()
        ):
            total = quick if self.tier == "quick" else thorough
            for i in range(total):
                plan.append(((i + 0.5) / total, order, kind, func, i))
        plan.sort(key=lambda x: x[:2])

        planned = len(plan)
        for _, _, kind, func, index in plan:
            if time.monotonic() - self.start > self.budget:
                break
            self.run_case(kind, func, index)
            if (
                self.stop
                or len(self.violations) >= 3
                or len(self.errors) >= 3
            ):
                break
        self.counters["planned_cases"] = planned
        return self.finish()

    def finish(self, replay=False):
        mod = self.module
        wall = time.monotonic() - self.start
        lines = []
        for sig, item in sorted(self.known_hits.items()):
            lines.append(
                f"KNOWN-FINDING: property={self.prop} {item['what']}"
            )
        for violation, kind, index, trace in self.violations:
            out = VERIF / "evidence" / "replay"
            out.mkdir(parents=True, exist_ok=True)
            path = out / f"{self.prop}-{kind}-{index}-{self.seed}.json"
            path.write_text(
                json.dumps(
                    {
                        "property": self.prop,
                        "kind": kind,
                        "index": index,
                        "seed": self.seed,
                        "tier": self.tier,
                        "signature": violation.signature,
                        "message": str(violation.message),
                        "witness": {
                            k: str(v) for k, v in violation.witness.items()
                        },
                        "trace": trace,
                        "replay": (
                            f"VERIF_SEED={self.seed} ./run.sh {self.prop} "
                            f"--replay {path}"
                        ),
                    },
                    indent=1,
                )
            )
            print(f"# {kind}[{index}] {violation}"[:1200])
            lines.append(f"VIOLATION property={self.prop} replay={path}")

        missing = {}
        if not replay:
            for name, minimum in getattr(mod, "REQUIRED", {}).items():
                if self.counters[name] < minimum:
                    missing[name] = (self.counters[name], minimum)

            evidence = {
                "property": self.prop,
                "tier": self.tier,
                "seed": self.seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": self.cases,
                    "distinct_nontrivial": len(self.signatures),
                    "rule": mod.RULE,
                    "samples": [
                        x for kept in self.samples.values() for x in kept
                    ]
                    or ["none"],
                    "cases_by_kind": dict(sorted(self.kind_counts.items())),
                    "observed": dict(sorted(self.counters.items())),
                    "known_findings_seen": sorted(self.known_hits),
                },
                "assumptions": getattr(mod, "ASSUMPTIONS", []),
                "wall_s": round(wall, 3),
                "violations": len(self.violations),
            }
            path = VERIF / "evidence" / f"{self.prop}.json"
            path.parent.mkdir(exist_ok=True)
            path.write_text(json.dumps(evidence, indent=1) + "\n")

        for line in lines:
            print(line)
        for err in self.errors:
            print(f"# ERROR {err}", file=sys.stderr)
        if missing:
            print(f"# INCONCLUSIVE observed too little: {missing}")
        print(
            f"# {self.prop} {self.tier} seed={self.seed} cases={self.cases} "
            f"distinct={len(self.signatures)} "
            f"oracle={self.counters['oracle_evaluations']} "
            f"wall={wall:.1f}s"
        )
        if self.violations:
            return 1
        if self.errors or missing:
            return 2
        return 0


def repo_raised(exc) -> bool:
    """Whether an exception came out of the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        frames = traceback.extract_tb(exc.__traceback__)
        if frames and any(
            f.filename.startswith(str(REPO) + os.sep) for f in frames
        ):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


def observed_types():
    """
    Exceptions that a workload meets because of what it observed (and not
    because the names or signatures that it uses don't exist any more).
    """

    from websockets.exceptions import ConnectionClosed

    return (
        ConnectionError,
        ConnectionClosed,
        TimeoutError,
        EOFError,
        KeyError,
        IndexError,
        ValueError,
        AssertionError,
        StopIteration,
        struct.error,
        asyncio.CancelledError,
    )


def load_known():
    """Open findings: lines that start with 'finding:' in the known file."""
    path = VERIF / "known_findings.jsonl"
    result = []
    if path.is_file():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                result.append(json.loads(line))
    return result


@contextmanager
def quiet_logging(capture=None, level=logging.CRITICAL):
    """Keep the code's logging away from the verdict stream."""
    root = logging.getLogger()
    handlers, lvl = root.handlers[:], root.level
    root.handlers[:] = [capture] if capture is not None else [
        logging.NullHandler()
    ]
    root.setLevel(logging.DEBUG if capture is not None else level)
    try:
        yield capture
    finally:
        root.handlers[:] = handlers
        root.setLevel(lvl)


# Cases take milliseconds to a few seconds: a case that uses this much time
# doesn't end (an endless loop in the code, or a blocking call).
CPU_LIMIT_S = 30
REAL_LIMIT_S = 150


@contextmanager
def time_limit():
    """Interrupt a case that doesn't return to its event loop."""

    def on_cpu(*_):
        raise Spinning(f"{CPU_LIMIT_S} s of processor time")

    def on_real(*_):
        raise Spinning(f"{REAL_LIMIT_S} s")

    signal.signal(signal.SIGPROF, on_cpu)
    signal.signal(signal.SIGALRM, on_real)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_S, 2)
    signal.setitimer(signal.ITIMER_REAL, REAL_LIMIT_S, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def limit_memory(size=12 << 30):
    """Let unbounded allocations fail instead of ending the sandbox."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if hard == resource.RLIM_INFINITY or hard > size:
        resource.setrlimit(resource.RLIMIT_AS, (size, hard))


def arm_watchdog(limit):
    """End a run that's stuck in a synchronous loop as a non-answer."""

    def fire():
        sys.stdout.flush()
        print("# WATCHDOG", file=sys.stderr)
        faulthandler.dump_traceback(file=sys.stderr, all_threads=True)
        os._exit(3)

    timer = threading.Timer(limit, fire)
    timer.daemon = True
    timer.start()
    return timer
