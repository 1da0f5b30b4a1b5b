"""C29: waiting on values and sampling them."""

import asyncio
from fractions import Fraction
import gc
import math
import operator

from lib import names, prims, vloop

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives.evaluation import (
    EvalResult,
    Operator,
    evaluate,
    sample_for,
)

PROPERTY = "C29"
RULE = (
    "random change histories on logical time (bursts within an instant, "
    "pulses shorter than a loop iteration) with 1-6 concurrent waiters and "
    "samplers of all kinds that start, time out, are cancelled or stop "
    "reading at random times; results and completion times are compared with "
    "the recorded history; non-trivial = distinct history"
)
REQUIRED = {"waits": 2000, "success_now": 200, "success_later": 300,
            "timeouts": 300, "pulses": 60, "cancelled": 150,
            "scaled": 200, "negative_scale": 60, "isclose": 100,
            "enum_waits": 100, "bool_waits": 100, "custom_waits": 100,
            "samplers": 1200, "samples": 5000, "slow_samplers": 200,
            "counted": 300, "enum_samples": 200, "broken_off": 60,
            "unlisted": 30, "nearest": 20}

OPS = {
    Operator.LESS_THAN: operator.lt,
    Operator.LESS_THAN_OR_EQUAL: operator.le,
    Operator.EQUAL: operator.eq,
    Operator.NOT_EQUAL: operator.ne,
    Operator.GREATER_THAN_OR_EQUAL: operator.ge,
    Operator.GREATER_THAN: operator.gt,
}

SCALINGS = [None, None, [0.0, 2.0], [1.0, 0.5], [-4.0, -2.0], [0.0, -0.25],
            [10.0], [0.5, 4.0]]


# Tasks that the workload cancelled.
STOPPED = []


class Item:
    """A channel and what it holds over time."""

    def __init__(self, env, name, kind, scaling, items):
        self.env = env
        self.name = name
        self.kind = kind
        self.scaling = scaling
        self.items = items
        self.prim = env[name][0].raw
        self.base = len(getattr(self.prim, "callbacks", ()))
        # (logical time, order, value, timestamp)
        self.history = []
        self.token = None

    def record(self, loop):
        def changed(_, new):
            self.history.append(
                (loop.time(), new, self.prim.last_updated_ns)
            )

        self.history.append(
            (loop.time(), self.prim.value, self.prim.last_updated_ns)
        )
        self.token = self.prim.register_callback(changed)
        self.base += 1

    def scaled(self, raw):
        """Exact scaled value."""
        if not self.scaling:
            return raw if self.kind == "bool" else Fraction(raw)
        return sum(
            Fraction(x) * Fraction(raw) ** i
            for i, x in enumerate(self.scaling)
        )

    def raw(self, rng):
        """A value (small, so that conditions are met often)."""
        if self.kind == "bool":
            return rng.random() < 0.5
        if self.items and rng.random() < 0.8:
            return rng.choice(list(self.items.values()))
        if self.kind in prims.FLOATS:
            return rng.choice([0.0, 0.5, 1.0, 2.0, -1.5, -3.0, 4.0])
        if self.kind.startswith("u"):
            return rng.choice([0, 1, 2, 3, 4, 100])
        return rng.choice([0, 1, 2, 3, -1, -2, 100])


def build(case, loop):
    """An environment with channels of all kinds."""

    rng = case.rng
    env = ChannelEnvironment()
    used, out = set(), []
    ints = {x: y for x, y in names.enum_items(rng).items()}
    env.enum("Ints", "int", items=dict(ints))
    bools = {"On": True, "Off": False}
    env.enum("Bools", "bool", items=dict(bools))
    for _ in range(rng.randint(1, 3)):
        name = names.channel(rng, used)
        used.add(name)
        kind = rng.choice(
            ["bool", "bool", "float", "double"] + list(prims.INTS)
        )
        scaling, items = None, None
        kwargs = {}
        if kind == "bool":
            if rng.random() < 0.4:
                items = bools
                kwargs["enum"] = "Bools"
            env.bool_channel(name, **kwargs)
        elif kind in prims.FLOATS:
            scaling = rng.choice(SCALINGS)
            env.float_channel(name, kind, scaling=scaling)
        else:
            if rng.random() < 0.4:
                items = ints
                kwargs["enum"] = "Ints"
                if kind == "int8":
                    kind = "int16"
            else:
                scaling = rng.choice(SCALINGS)
                kwargs["scaling"] = scaling
            env.int_channel(name, kind, **kwargs)
        item = Item(env, name, kind, scaling, items)
        item.prim.value = item.raw(rng)
        item.record(loop)
        out.append(item)
    return out


async def changes(case, items, loop, end):
    """Change channels at random instants."""

    rng = case.rng
    while loop.time() < end:
        for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
            item = rng.choice(items)
            item.prim.value = item.raw(rng)
            if rng.random() < 0.25:
                # A pulse that's over before anyone else runs.
                case.event("pulses")
                before = item.prim.value
                item.prim.value = item.raw(rng)
                item.prim.value = before
        await asyncio.sleep(
            rng.choice([0, 0.0101, 0.0503, 0.2507, 1.0011]) * rng.random()
        )


def condition(case, item):
    """A random condition as (coroutine maker, model)."""

    rng = case.rng
    env, name, prim = item.env, item.name, item.prim
    target = item.raw(rng)
    roll = rng.random()
    if roll < 0.15:
        # Anything may be evaluated.
        seen = []
        mask = rng.choice([2, 3])

        def model(raw):
            return int(raw) % mask == 0

        def evaluator(curr, new):
            seen.append((curr, new))
            return EvalResult.SUCCESS if model(new) else EvalResult.FAIL

        case.event("custom_waits")
        return lambda t: evaluate(prim, evaluator, t), model
    if item.items:
        pick = rng.choice(list(item.items))
        case.event("enum_waits")
        want = item.items[pick]
        return (
            lambda t: env.wait_for_enum(name, pick, t),
            lambda raw: raw == want,
        )
    if item.kind == "bool":
        case.event("bool_waits")
        if rng.random() < 0.5:
            return (
                lambda t: env.wait_for_bool(name, target, t),
                lambda raw: raw == target,
            )
        return (
            lambda t: prim.wait_for_state(target, t),
            lambda raw: raw == target,
        )
    want = item.scaled(target)
    if item.scaling:
        case.event("scaled")
        if len(item.scaling) > 1 and item.scaling[1] < 0:
            case.event("negative_scale")
    if roll < 0.35:
        case.event("isclose")
        tols = rng.choice([{}, {"abs_tol": 0.5}, {"abs_tol": 2.0},
                           {"rel_tol": 0.5}])
        near = float(want) + rng.choice([0.0, 0.0, 0.25])
        method = rng.choice(
            [
                lambda t: env.wait_for_numeric_isclose(name, near, t, **tols),
                lambda t: prim.wait_for_isclose(near, t, **tols),
            ]
        )
        return method, lambda raw: math.isclose(
            near, float(item.scaled(raw)), **tols
        )
    oper = rng.choice(list(OPS))
    if item.scaling and len(item.scaling) == 1:
        # (Constants have no inverse to compare with.)
        oper, want = Operator.EQUAL, None
        return (
            lambda t: prim.wait_for_isclose(10.0, t),
            lambda raw: True,
        )
    value = float(want) if want.denominator != 1 or rng.random() < 0.3 else (
        int(want)
    )
    kwargs = {"operation": oper}
    if oper is Operator.EQUAL and rng.random() < 0.5:
        kwargs = {}
    if (
        oper in (Operator.EQUAL, Operator.NOT_EQUAL)
        and item.kind not in prims.FLOATS
        and item.scaling
        and len(item.scaling) == 2
        and rng.random() < 0.5
    ):
        # The nearest value that can be represented is what's meant.
        value = float(want) + rng.choice([-0.2, 0.2]) * item.scaling[1]
        case.event("nearest")
    method = rng.choice(
        [
            lambda t: env.wait_for_numeric(name, value, t, **kwargs),
            lambda t: prim.wait_for_value(value, t, **kwargs),
        ]
    )
    return method, lambda raw: OPS[oper](want, item.scaled(raw))


async def waiter(case, item, loop):
    """Wait for a condition; the history says what must come of it."""

    rng = case.rng
    await asyncio.sleep(rng.random() * 2)
    method, model = condition(case, item)
    timeout = rng.choice([0.0, 0.05, 0.4, 1.5, 4.0]) * (0.5 + rng.random())
    start, first = loop.time(), len(item.history)
    initial = bool(model(item.prim.value))
    quit_at = None
    task = asyncio.create_task(method(timeout))
    if rng.random() < 0.15:
        quit_at = rng.random() * 2
        try:
            await asyncio.wait_for(task, quit_at)
        except asyncio.TimeoutError:
            case.event("cancelled")
            case.expect(task.cancelled(), "cancelled-waiter", str(task))
            return
    result = await task
    done = loop.time()
    case.event("waits")
    # The task began one loop iteration after its start was noted.
    truths = [(start, initial)] + [
        (at, bool(model(raw))) for at, raw, _ in item.history[first:]
    ]
    hits = [at for at, truth in truths if truth]
    case.expect(
        isinstance(result, EvalResult), "result-type", repr(result)
    )
    describe = (
        f"{item.name} ({item.kind}, {item.scaling}) timeout={timeout} "
        f"start={start} done={done} result={result.name} truths={truths[:12]}"
    )
    end = start + timeout
    if result:
        case.expect(
            any(start <= x <= done for x in hits), "false-success", describe
        )
        case.expect(done <= end + 1e-6, "late-success", describe)
        if initial:
            case.event("success_now")
        else:
            case.event("success_later")
            case.expect(
                abs(done - min(hits)) < 1e-6, "success-time", describe
            )
    else:
        case.event("timeouts")
        case.expect(
            result in (EvalResult.TIMEOUT, EvalResult.FAIL), "result",
            describe,
        )
        case.expect(
            not any(start < x < end - 1e-6 for x in hits) and not (
                initial and len(truths) == 1
            ),
            "missed",
            describe,
        )
        case.expect(end - 1e-6 <= done <= end + 1e-6, "timeout-time",
                    describe)


async def sampler(case, item, loop):
    """Sample; exactly the changes are returned."""

    rng = case.rng
    await asyncio.sleep(rng.random() * 2)
    timeout = rng.choice([0.0, 0.05, 0.4, 1.5, 4.0]) * (0.5 + rng.random())
    count = rng.choice([-1, -1, 0, 1, 2, 5, 10])
    current = rng.random() < 0.7
    kwargs = {"count": count, "current": current}
    env, name, prim = item.env, item.name, item.prim
    show = lambda raw: raw
    if rng.random() < 0.3:
        source = sample_for(prim, timeout, **kwargs)
    elif item.items:
        case.event("enum_samples")
        text = {y: x for x, y in item.items.items()}
        source = env.sample_enum_for(name, timeout, **kwargs)

        def show(raw):
            if raw not in text:
                case.event("unlisted")
            return text.get(raw, str(raw))
    elif item.kind == "bool":
        source = env.sample_bool_for(name, timeout, **kwargs)
    else:
        scale = rng.random() < 0.7
        if scale:
            show = item.scaled
        method = (
            env.sample_float_for
            if item.kind in prims.FLOATS
            else env.sample_int_for
        )
        source = method(name, timeout, scale=scale, **kwargs)
    case.event("samplers")
    slow = rng.choice([None, None, 0.0, 0.01, 0.3, 1.0])
    stop_after = rng.randint(1, 3) if rng.random() < 0.15 else None
    first = len(item.history)
    start = loop.time()
    latest = prim.last_updated_ns
    got = []
    resumed = start
    try:
        async for sample in source:
            case.expect(
                isinstance(sample, tuple) and len(sample) == 2,
                "sample-type", repr(sample),
            )
            got.append(sample)
            if stop_after and len(got) >= stop_after:
                break
            if slow is not None:
                await asyncio.sleep(slow * rng.random())
            resumed = loop.time()
    except asyncio.CancelledError:
        if asyncio.current_task() in STOPPED:
            raise
        case.fail(
            "sampler-cancelled",
            f"a sampler's consumer was cancelled by its timeout ({timeout}, "
            f"consumer pauses {slow})",
        )
    finally:
        broken = stop_after and len(got) >= stop_after
        if broken:
            await source.aclose()
    done = loop.time()
    end = start + timeout
    changes_ = item.history[first - (1 if current else 0):]
    want = [(show(raw), stamp) for _, raw, stamp in changes_]
    if current:
        # (It may have been set to what it was already.)
        want[0] = (want[0][0], latest)
    if count > 0:
        want = want[:count]
    describe = (
        f"{item.name} {item.kind} timeout={timeout} {kwargs} slow={slow} "
        f"got {len(got)}: {got[:8]} expected {want[:8]}"
    )
    case.event("samples", len(got))
    case.equal(got, want[: len(got)], "samples", describe)
    if slow:
        case.event("slow_samplers")
    if count > 0:
        case.event("counted")
        case.expect(len(got) <= count, "count", describe)
    if broken:
        case.event("broken_off")
        return
    # Everything that happened in time is reported.
    due = sum(
        1
        for i, (at, _, __) in enumerate(changes_)
        if (current and i == 0) or at < end - 1e-6
    )
    if count > 0:
        due = min(due, count)
    case.expect(len(got) >= due, "samples-missing", describe)
    if count > 0 and len(got) == count and slow is None:
        case.expect(done <= end + 1e-6, "sample-end", describe)
    elif slow is None:
        case.expect(
            end - 1e-6 <= done <= end + 1e-6, "sample-end",
            f"ended at {done} instead of {end}: {describe}",
        )
    else:
        # A slow consumer only delays what's left to hand over.
        case.expect(
            done <= max(end, resumed) + 1e-6, "sample-end", describe
        )


async def body(case, jobs):
    loop = asyncio.get_running_loop()
    rng = case.rng
    STOPPED.clear()
    items = build(case, loop)
    case.note(
        " ".join(f"{x.name}:{x.kind}:{x.scaling}" for x in items)
    )
    change = asyncio.create_task(changes(case, items, loop, loop.time() + 8.0))
    tasks = [
        asyncio.create_task(
            rng.choice(jobs)(case, rng.choice(items), loop)
        )
        for _ in range(rng.randint(2, 6))
    ]
    stopped = None
    if rng.random() < 0.3:
        # Cancel one of them at a random time.
        stopped = rng.choice(tasks)

        async def cancel():
            await asyncio.sleep(rng.random() * 5)
            STOPPED.append(stopped)
            stopped.cancel()

        asyncio.create_task(cancel())
    results = await asyncio.gather(*tasks, return_exceptions=True)
    for task, result in zip(tasks, results):
        if isinstance(result, BaseException) and task is not stopped:
            change.cancel()
            raise result
    if stopped is not None and stopped.cancelled():
        case.event("cancelled")
    change.cancel()
    await asyncio.gather(change, return_exceptions=True)
    # (Abandoned generators are closed by the loop.)
    del results, tasks, task, result, stopped
    STOPPED.clear()
    gc.collect(0)
    await asyncio.sleep(0.001)
    for item in items:
        case.equal(
            len(getattr(item.prim, "callbacks", range(item.base))),
            item.base, "listeners", f"observers of {item.name}",
        )
    case.distinct(*case.trace, sum(len(x.history) for x in items))
    case.sample(case.trace[0])


def waits(case):
    vloop.run(body(case, [waiter]), grace=0)


def samples(case):
    vloop.run(body(case, [sampler]), grace=0)


def mixed(case):
    vloop.run(body(case, [sampler, waiter]), grace=0)


KINDS = {
    "wait": (waits, 2200, 60000),
    "sample": (samples, 1600, 40000),
    "mixed": (mixed, 1200, 30000),
}
