"""C24: periodic tasks dispatch one at a time and stop when told to."""

import asyncio
import logging
import sys
import time

from lib import vloop
from lib.prims import to_single as f32

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.task import AsyncTask
from runtimepy.task import PeriodicTask
from runtimepy.task import PeriodicTaskManager

PROPERTY = "C24"
RULE = (
    "tasks with generated iteration durations and results run on logical "
    "time while disable, stop, the stop signal, pause, period changes, "
    "cancellation and restarts happen at generated instants (between and "
    "during iterations, from outside and from within); a monitor compares "
    "the recorded iterations and metrics with the schedule a model allows; "
    "non-trivial = distinct control histories"
)
REQUIRED = {"runs": 900, "iterations": 8000, "inside": 700, "between": 250,
            "disable": 100, "stop": 150, "signal": 100, "cancel": 60,
            "false": 60, "raise": 60, "pauses": 150, "periods": 200,
            "restarts": 150, "gaps": 4000, "overruns": 500, "metrics": 900,
            "long_stops": 20, "manager_runs": 60, "async_runs": 150,
            "limits": 30, "duplicates": 20, "self_control": 80}
LOG = logging.getLogger("verif.c24")
EPS = 2e-4


class Planned(Exception):
    """An expected failure."""


class Clock:
    """Makes measured time follow the event loop."""

    def __enter__(self):
        self.module = sys.modules["vcorelib.math.time"]
        # pylint: disable=protected-access
        self.saved = self.module._perf_counter_ns, time.perf_counter_ns
        loop = asyncio.get_running_loop()

        def now():
            return round(loop.time() * 1e9)

        self.module._perf_counter_ns = now
        time.perf_counter_ns = now

    def __exit__(self, *_):
        self.module._perf_counter_ns = self.saved[0]
        time.perf_counter_ns = self.saved[1]


def now():
    """Get logical time."""
    return asyncio.get_running_loop().time()


class Task(PeriodicTask):
    """A scripted task."""

    def __init__(self, case, name, plan, **kwargs):
        self.case = case
        self.plan = plan
        self.log = []  # [start, end, how, period at end]
        self.active = 0
        self.ended = None  # Why no further iteration may start.
        self.stops = 0
        self.paused_at = 0.0
        self.hooks = {}
        super().__init__(name, **kwargs)

    @property
    def ended(self):
        """Why no further iteration may start."""
        return self._ended

    @ended.setter
    def ended(self, value):
        self._ended = value
        self.ended_at = now()

    async def stop_extra(self):
        self.stops += 1

    async def dispatch(self):
        case = self.case
        case.event("iterations")
        case.expect(
            self.active == 0, "overlap",
            f"iteration {len(self.log)} started during another one",
        )
        # (An iteration may already be starting in the same instant.)
        case.expect(
            self.ended is None or now() < self.ended_at + EPS,
            "started-after-end",
            f"iteration {len(self.log)} after {self.ended}",
        )
        case.expect(
            not self.paused or now() < self.paused_at + EPS, "started-while-paused", f"{len(self.log)}"
        )
        index = len(self.log)
        entry = [now(), None, "running", None, self.period_s.value]
        self.log.append(entry)
        self.active += 1
        duration, how = self.plan(index)
        try:
            hook = self.hooks.pop(index, None)
            if hook is not None:
                await asyncio.sleep(duration / 2)
                hook()
                await asyncio.sleep(duration / 2)
            elif duration or index % 3:
                await asyncio.sleep(duration)
            if how == "raise":
                self.ended = "raised"
                entry[2] = "raised"
                raise Planned(str(index))
            entry[2] = "done"
            if how == "false":
                self.ended = "failed iteration"
            return how != "false"
        except asyncio.CancelledError:
            entry[2] = "cancelled"
            raise
        finally:
            self.active -= 1
            entry[1] = now()
            entry[3] = self.period_s.value


def planner(rng, period, end=None, how="ok", slow=0.2):
    """Create a plan for iterations."""

    plans = {}

    def plan(index):
        if index not in plans:
            scale = rng.random()
            duration = rng.choice([0.0, 0.0, scale * period * 0.9])
            if rng.random() < slow:
                duration = period * (1.1 + scale)
            plans[index] = duration
        return plans[index], how if index == end else "ok"

    return plan


def judge_metrics(case, task, depth):
    """Metrics count exactly the iterations run."""

    case.event("metrics")
    done = [x for x in task.log if x[2] in ("done", "cancelled")]
    count = len(done)
    case.equal(task.metrics.dispatches.value, count, "dispatches")
    case.equal(
        task.env.value("metrics.dispatches"), count, "dispatches-channel"
    )
    times = [x[1] - x[0] for x in done]
    if times:
        for name, got, want in [
            ("max", task.metrics.max_s.value, max(times)),
            ("min", task.metrics.min_s.value, min(times)),
            ("average", task.metrics.average_s.value,
             sum(times[-depth:]) / depth),
        ]:
            case.expect(
                abs(got - want) < 1e-4 + 1e-5 * abs(want),
                f"metrics-{name}", f"{got}, expected {want}: {times[-20:]}",
            )
    low = sum(x[1] - x[0] > max(x[3], x[4]) + EPS for x in done)
    high = sum(x[1] - x[0] > min(x[3], x[4]) - EPS for x in done)
    case.event("overruns", low)
    case.expect(
        low <= task.metrics.overruns.value <= high, "metrics-overruns",
        f"{task.metrics.overruns.value}, expected {low} to {high}",
    )


def judge_gaps(case, task, first, begin, breaks):
    """Iterations of one run follow its period."""

    log = task.log[first:]
    if not log:
        return
    if not any(x[0] == "pause" for x in breaks):
        case.expect(
            abs(log[0][0] - begin) < EPS, "first-iteration",
            f"{log[0][0] - begin} after the start",
        )
    for prev, curr in zip(log, log[1:]):
        gap = curr[0] - prev[0]
        want = max(prev[3], prev[1] - prev[0])
        case.event("gaps")
        case.expect(
            gap > want - EPS, "too-early",
            f"{gap} between iterations, period {prev[3]}, took "
            f"{prev[1] - prev[0]}",
        )
        paused = any(
            kind == "pause" and start <= curr[0] and end >= prev[0]
            for kind, start, end in breaks
        )
        if not paused:
            case.expect(
                gap < want + EPS, "too-late",
                f"{gap} between iterations, period {prev[3]}, took "
                f"{prev[1] - prev[0]}",
            )


class Driver:
    """Runs a history of a single task."""

    def __init__(self, case):
        self.case = case
        rng = self.rng = case.rng
        self.period = rng.choice([0.05, 0.25, 1.0, 3.0])
        self.depth = rng.choice([3, 10])
        self.task = Task(
            case, "task", planner(rng, self.period), period_s=self.period,
            average_depth=self.depth,
        )
        self.stop = asyncio.Event()
        self.history = []

    async def pause(self, log):
        """Pause and resume."""

        task, case, rng = self.task, self.case, self.rng
        case.event("pauses")
        start = task.paused_at = now()
        if rng.random() < 0.5:
            task.paused.value = True
        else:
            case.expect(
                bool(task.command.command("set paused true")),
                "pause-command", "",
            )
        entry = ["pause", start, 1e18]
        log.append(entry)
        active, count = task.active, len(task.log)
        await asyncio.sleep(
            self.period * rng.choice([0.3, 2.7, 5.3])
            + 3 * self.period * active
        )
        case.equal(len(task.log), count, "iterations-while-paused")
        if rng.random() < 0.5:
            task.paused.value = False
        else:
            task.command.command("toggle paused")
        entry[2] = now()
        count = len(task.log)
        await asyncio.sleep(task.period_s.value * 1.01 + EPS)
        if task.ended is None:
            case.expect(len(task.log) > count, "not-resumed", f"{log} {now()}")
        entry[2] = now()

    def repace(self, inside=False):
        """Change the period."""

        task, rng = self.task, self.rng
        self.case.event("periods")
        value = self.period * rng.choice([0.5, 1.5, 2.0, 1.0])
        if rng.random() < 0.5:
            got = task.set_period(value)
            self.case.expect(got or value == f32(value), "set-period", "")
        else:
            task.command.command(f"set period_s {value!r}")
        self.case.equal(task.period_s.value, f32(value), "period")
        self.history.append(("period", inside))

    async def control(self, runner, breaks):
        """Do something about the task."""

        task, case, rng = self.task, self.case, self.rng
        period = self.period
        for _ in range(rng.choice([0, 0, 1, 2])):
            await asyncio.sleep(
                period * (rng.choice([0.1, 1.3, 3.7]) + rng.random() / 9)
            )
            what = rng.choice(["pause", "period", "self"])
            if runner.done():
                return
            if what == "pause":
                await self.pause(breaks)
                self.history.append("pause")
            elif what == "period":
                self.repace()
            else:
                # From within an iteration.
                case.event("self_control")
                task.hooks[len(task.log) + 1] = lambda: self.repace(True)

    async def run(self):
        """Run the task once, end it somehow."""

        task, case, rng = self.task, self.case, self.rng
        case.event("runs")
        task.ended = None
        task.hooks = {}
        task.paused.value = False
        self.stop.clear()
        how = rng.choice(
            ["disable", "stop", "stop", "signal", "cancel", "false",
             "raise", "self-disable", "self-signal"]
        )
        self.period = task.period_s.value
        first = len(task.log)
        end = first + rng.choice([0, 1, 2, 7])
        if how in ("false", "raise"):
            task.plan = planner(rng, self.period, end, how)
        else:
            task.plan = planner(
                rng, self.period, slow=rng.choice([0.0, 0.2, 0.9])
            )
        begin = now()
        arg = None
        if rng.random() < 0.3:
            arg = self.period * rng.choice([0.5, 1.0, 2.0])
        runner = await task.task(period_s=arg, stop_sig=self.stop)
        case.expect(not runner.done(), "run-task", "")
        breaks = []
        await asyncio.sleep(0)
        if arg is not None:
            case.equal(task.period_s.value, f32(arg), "run-period")
            self.period = task.period_s.value
        self.history.append((how, task.period_s.value))

        if how not in ("false", "raise") and how[:4] != "self":
            await self.control(runner, breaks)
            # Hit iterations and the time between them.
            await asyncio.sleep(
                self.period * rng.choice([0.0, 0.17, 0.5, 1.83, 4.31])
            )
            if rng.random() < 0.5:
                for _ in range(200):
                    if task.active:
                        break
                    await asyncio.sleep(self.period * 0.0371)
        await getattr(self, "end_" + how.replace("-", "_"))(runner, end)
        if runner.done() and not runner.cancelled():
            exc = runner.exception()
            if exc is not None and not isinstance(exc, Planned):
                raise exc
        case.expect(task.active == 0, "still-running", how)
        case.expect(runner.done(), "task-pending", how)
        judge_gaps(case, task, first, begin, breaks)
        judge_metrics(case, task, self.depth)
        count = len(task.log)
        await asyncio.sleep(self.period * 4)
        case.equal(len(task.log), count, "iterations-after-end", how)
        case.event("restarts")

    def where(self):
        """Count where control events happen."""
        self.case.event("inside" if self.task.active else "between")
        self.history.append(self.task.active)

    async def wait(self, runner, how):
        """Wait for a run to end by itself."""
        task = self.task
        limit = 2 * self.period + 3 * max(
            self.period, task.period_s.value
        ) + 1.0
        done, _ = await asyncio.wait([runner], timeout=limit)
        self.case.expect(
            bool(done), "not-ended", f"{how}: {limit} seconds later"
        )

    def finished(self, runner):
        """A task ended normally."""
        self.case.expect(
            not runner.cancelled() and runner.exception() is None,
            "run-result", f"{runner}",
        )

    async def end_disable(self, runner, _):
        self.case.event("disable")
        self.where()
        task = self.task
        task.ended = "disabled"
        self.case.expect(task.disable() is True, "disable-result", "")
        self.case.expect(task.disable() is False, "disable-again", "")
        await self.wait(runner, "disabled")
        self.complete()
        self.finished(runner)

    def complete(self):
        """The last iteration wasn't interrupted."""
        for entry in self.task.log:
            self.case.expect(
                entry[2] in ("done", "raised") or entry[2] == "cancelled"
                and entry in self.interrupted(), "interrupted", f"{entry}",
            )

    def interrupted(self):
        """Iterations that are allowed to be cut short."""
        return getattr(self.task, "cut", [])

    async def end_signal(self, runner, _):
        self.case.event("signal")
        self.where()
        # An iteration that is about to start notices afterwards.
        between = self.task.active == 0
        count = len(self.task.log)
        if not between:
            self.task.ended = "stop signal"
        self.stop.set()
        await self.wait(runner, "stop signal")
        if between:
            self.case.expect(
                len(self.task.log) <= count + 1, "ignored-signal",
                f"{len(self.task.log) - count} iterations",
            )
        self.complete()
        self.finished(runner)

    async def end_stop(self, runner, _):
        task, case = self.task, self.case
        case.event("stop")
        self.where()
        task.ended = "stopped"
        active = task.log[-1] if task.active else None
        start, stops = now(), task.stops
        if self.rng.random() < 0.2:
            task.disable()
        case.equal(await task.stop(), True, "stop-result")
        case.equal(task.stops, stops + 1, "stop-extra")
        case.expect(
            now() - start < 2.5, "stop-time", f"{now() - start} seconds"
        )
        if active is not None:
            case.expect(
                active[1] is not None, "stopped-early",
                "the iteration is still running",
            )
            if active[2] == "cancelled":
                case.event("long_stops")
                task.cut = self.interrupted() + [active]
                case.expect(
                    active[1] - start > 0.9, "cut-short", f"{active}"
                )
        case.equal(await task.stop(), False, "stop-again")
        self.complete()

    async def end_cancel(self, runner, _):
        self.case.event("cancel")
        self.where()
        self.task.ended = "cancelled"
        active = self.task.log[-1] if self.task.active else None
        runner.cancel()
        await self.wait(runner, "cancelled")
        if active is not None and active[2] == "cancelled":
            self.task.cut = self.interrupted() + [active]
        self.case.expect(
            runner.cancelled() or runner.exception() is None,
            "run-result", f"{runner}",
        )

    async def end_false(self, runner, end):
        self.case.event("false")
        if self.rng.random() < 0.3:
            # Paused in the meantime.
            def hook():
                self.task.paused_at = now()
                self.task.paused.value = True

            self.task.hooks[end] = hook
        await self.until(runner, end)
        self.finished(runner)
        self.complete()

    async def until(self, runner, end):
        """Wait for a specific iteration to end the run."""
        limit = (end + 3) * self.period * 4 + 5
        done, _ = await asyncio.wait([runner], timeout=limit)
        self.case.expect(bool(done), "not-ended", f"iteration {end}")
        self.case.equal(len(self.task.log), end + 1, "last-iteration")

    async def end_raise(self, runner, end):
        self.case.event("raise")
        await self.until(runner, end)
        self.case.expect(
            not runner.cancelled()
            and isinstance(runner.exception(), Planned),
            "run-exception", f"{runner}",
        )

    async def end_self_disable(self, runner, end):
        task, case = self.task, self.case
        case.event("inside")
        case.event("disable")

        def hook():
            case.equal(task.disable(), True, "disable-result")
            task.ended = "disabled itself"

        task.hooks[end] = hook
        await self.until(runner, end)
        self.finished(runner)
        self.complete()

    async def end_self_signal(self, runner, end):
        task, case = self.task, self.case
        case.event("inside")
        case.event("signal")

        def hook():
            self.stop.set()
            task.ended = "stop signal"

        task.hooks[end] = hook
        await self.until(runner, end)
        self.finished(runner)
        self.complete()


def run_single(case):
    """Histories of a single task."""

    async def main():
        with Clock():
            driver = Driver(case)
            for _ in range(case.rng.randint(1, 4)):
                await driver.run()
            case.distinct(tuple(driver.history))

    vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)


def run_restart(case):
    """Starting a running task replaces its run."""

    rng = case.rng

    async def main():
        with Clock():
            case.event("runs")
            period = rng.choice([0.1, 1.0])
            task = Task(
                case, "task", planner(rng, period, slow=0.4),
                period_s=period,
            )
            runners = []
            for _ in range(rng.randint(2, 4)):
                case.event("restarts")
                runners.append(await task.task())
                case.expect(
                    all(x.done() for x in runners[:-1]), "restart",
                    "the previous run is still going",
                )
                count = len(task.log)
                await asyncio.sleep(period * rng.choice([0.0, 2.3, 3.1]))
                delay = period * rng.choice([0.01, 0.2])
                await asyncio.sleep(delay)
                case.expect(len(task.log) > count, "not-started", "")
            case.distinct((period, tuple(x[0] for x in task.log)))
            if rng.random() < 0.5:
                try:
                    # One run at a time.
                    await asyncio.wait_for(task.run(), 10.0)
                    case.fail("double-run", "")
                except AssertionError:
                    pass
                case.expect(
                    not runners[-1].done(), "double-run", "run ended"
                )
            await task.stop()
            task.ended = "stopped"
            case.expect(
                all(x.done() for x in runners), "stop", f"{runners}"
            )
            await asyncio.sleep(period * 5)

    vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)


def run_manager(case):
    """Groups of tasks."""

    rng = case.rng

    async def main():
        with Clock():
            manager = PeriodicTaskManager()
            tasks = {}
            for i in range(rng.randint(1, 5)):
                name = f"task{rng.randint(0, 5)}"
                period = rng.choice([0.1, 0.5, 1.0])
                task = Task(
                    case, name, planner(rng, period), period_s=period
                )
                override = rng.choice([None, 0.2])
                case.event("duplicates", name in tasks)
                case.equal(
                    manager.register(task, period_s=override),
                    name not in tasks, "register",
                )
                if name not in tasks:
                    tasks[name] = task
                    case.equal(
                        task.period_s.value, f32(override or period),
                        "register-period",
                    )
            case.equal(
                {x.name: x for x in manager.tasks}, tasks, "tasks"
            )
            stop = asyncio.Event()
            for _ in range(rng.randint(1, 3)):
                case.event("manager_runs")
                for task in tasks.values():
                    task.ended = None
                stop.clear()
                counts = {k: len(v.log) for k, v in tasks.items()}
                how = rng.choice(["leave", "raise", "signal", "again"])
                case.distinct((how, tuple(counts.items())))
                try:
                    async with manager.running(stop_sig=stop):
                        if how == "again":
                            await asyncio.sleep(0.3)
                            await manager.start(stop_sig=stop)
                        await asyncio.sleep(rng.choice([0.05, 2.13]))
                        if how == "raise":
                            raise Planned("body")
                        if how == "signal":
                            stop.set()
                            await asyncio.sleep(rng.choice([0.0, 4.0]))
                except Planned:
                    case.equal(how, "raise", "body-exception")
                for name, task in tasks.items():
                    task.ended = "manager stopped"
                    case.expect(
                        len(task.log) > counts[name], "not-run", name
                    )
                    case.expect(task.active == 0, "still-running", name)
                    case.expect(
                        manager[name] is task, "lookup", name
                    )
                await asyncio.sleep(5.0)

    vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)


class Async(AsyncTask):
    """A scripted asynchronous task."""

    def setup(self, case, plan, init):
        self.case = case
        self.plan = plan
        self.init_result = init
        self.log = []
        self.active = 0
        self.ended = None
        self.args = None
        self.hooks = {}

    async def init(self, *args, **kwargs):
        self.args = (args, kwargs)
        await asyncio.sleep(0.01)
        if not self.init_result:
            self.ended = "failed initialization"
        return self.init_result

    async def dispatch(self, *args, **kwargs):
        case = self.case
        case.event("iterations")
        case.expect(self.active == 0, "overlap", "async")
        case.expect(
            self.ended is None, "started-after-end", f"async {self.ended}"
        )
        case.equal((args, kwargs), self.args, "arguments")
        index = len(self.log)
        entry = [now(), None, "done", None]
        self.log.append(entry)
        self.active += 1
        duration, how = self.plan(index)
        await asyncio.sleep(duration)
        hook = self.hooks.pop(index, None)
        if hook is not None:
            hook()
        self.active -= 1
        entry[1] = now()
        entry[3] = self.period_s.raw.value
        if how == "false":
            self.ended = "failed iteration"
        return how != "false"


def run_async(case):
    """Asynchronous tasks."""

    rng = case.rng

    async def main():
        env = ChannelEnvironment()
        limit = rng.choice([0, 0, 1, 5, 300])
        period = rng.choice([0.1, 0.5])
        depth = rng.choice([2, 10])
        task = Async(
            "job", period, env, max_iterations=limit, average_depth=depth
        )
        env.finalize()
        for _ in range(rng.randint(1, 2)):
            case.event("async_runs")
            how = rng.choice(
                ["disable", "signal", "false", "self", "command", "init"]
            )
            end = rng.choice([0, 1, 4, 20])
            slow = rng.choice([0.0, 0.3])
            plan = planner(
                rng, period, end if how == "false" else None, "false", slow
            )
            task.setup(case, plan, how != "init")
            stop = asyncio.Event()
            if how == "self":
                def hook():
                    task.disable()
                    task.ended = "disabled itself"
                task.hooks[end] = hook
            begin = now()
            case.distinct((how, limit, end, period, slow))
            runner = asyncio.ensure_future(
                task.run(1, 2, stop_sig=stop, key="value")
            )
            outside = how in ("disable", "signal", "command")
            if outside:
                await asyncio.sleep(
                    0.02 + period * rng.choice([0.05, 1.3, 4.77, 9.1])
                )
                if not task.ended and not runner.done():
                    case.event("inside" if task.active else "between")
                if how == "disable":
                    task.disable()
                    task.ended = "disabled"
                elif how == "command":
                    env.set("job.enabled", False)
                    task.ended = "disabled"
                else:
                    if task.active:
                        task.ended = "stop signal"
                    stop.set()
                count = len(task.log)
            if limit == 300 or not outside:
                wait = (max(limit, 20) + 5) * period * 2.5
            else:
                wait = period * 5 + 1.0
            if limit == 0 and not outside:
                wait = (end + 5) * period * 2.5
            done, _ = await asyncio.wait([runner], timeout=wait)
            case.expect(
                bool(done), "async-not-ended",
                f"{how}, {limit} iterations, {len(task.log)} run",
            )
            runner.result()
            total = len(task.log)
            if how == "signal":
                case.expect(
                    total <= count + 1, "ignored-signal", f"{total}"
                )
            if limit:
                case.event("limits")
                case.expect(
                    total <= limit, "iteration-limit", f"{total}"
                )
            if how == "init":
                case.equal(total, 0, "failed-init")
            elif how in ("false", "self"):
                want = end + 1
                case.equal(
                    total, min(want, limit) if limit else want,
                    "async-iterations",
                )
            case.equal(task.dispatches.raw.value, total, "async-dispatches")
            case.event("metrics")
            times = [x[1] - x[0] for x in task.log]
            if times:
                case.expect(
                    abs(task.max_s.raw.value - max(times)) < 1e-4
                    and abs(task.min_s.raw.value - min(times)) < 1e-4
                    and abs(
                        task.average_s.raw.value
                        - sum(times[-depth:]) / depth
                    ) < 1e-4,
                    "async-metrics", f"{times[-20:]}",
                )
                case.expect(
                    task.log[0][0] - begin < 0.02, "async-start", ""
                )
            for prev, curr in zip(task.log, task.log[1:]):
                case.event("gaps")
                want = max(prev[3], prev[1] - prev[0])
                case.expect(
                    abs(curr[0] - prev[0] - want) < EPS, "async-gap",
                    f"{curr[0] - prev[0]}, expected {want}",
                )
            case.expect(not task.enabled, "async-enabled", how)
            await asyncio.sleep(period * 3)
            case.equal(len(task.log), total, "iterations-after-end", how)

    vloop.run(main(), limit=1e6, real_limit=60.0, grace=0)


KINDS = {
    "single": (run_single, 800, 20000),
    "restart": (run_restart, 60, 2000),
    "manager": (run_manager, 60, 2000),
    "async": (run_async, 160, 5000),
}
