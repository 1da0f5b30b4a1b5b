"""C32: stepping, simulated time and generated waveforms."""

import asyncio
import logging
import math
import time

from lib import apps, vloop
from vcorelib.math import default_time_ns, restore_time_source

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.control.source import DoubleSource, PrimitiveSource
from runtimepy.control.step import (
    StepperToggler,
    ToggleStepper,
    ToggleStepperTask,
)
from runtimepy.mixins.trig import TrigMixin
from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.arbiter.info import RuntimeStruct, TrigStruct
from runtimepy.noise import GaussianSource
from runtimepy.primitives import Double, Int32, Uint32
from runtimepy.task.trig import Sinusoid, SinusoidTask

PROPERTY = "C32"
RULE = (
    "random histories of step edges (direct, commanded and by tasks), "
    "iteration counts, time-source selections, waveform parameters and "
    "direct polls over applications with random steppers, structs and "
    "configurations; every poll's order, time and number, every channel's "
    "value and timestamp is compared with a model; non-trivial = distinct "
    "histories"
)
REQUIRED = {"apps": 300, "edges": 3500, "iterations": 16000,
            "simulated": 1400, "real": 16000, "selections": 1200,
            "stamps": 24000, "counts": 800, "no_edges": 500,
            "configured": 180, "derived": 60, "local": 50,
            "left_simulated": 150, "two_steppers": 80, "waves": 15000,
            "parameters": 5000, "hostile": 350, "sources": 1200,
            "toggler_runs": 60, "toggled": 4500, "sinusoids": 60}
LOG = logging.getLogger("verif.c32")
LOG.propagate = False
LOG.addHandler(logging.NullHandler())
CURRENT = []


class Derived(ToggleStepper):
    """Another stepper."""


class Probe(RuntimeStruct):
    """Records polls."""

    def init_env(self):
        self.seen = []
        self.value = Uint32()
        self.env.int_channel("value", self.value, commandable=True)

    def poll(self):
        self.seen.append(default_time_ns())
        self.value.value += 1
        self.seen.append(self.value.last_updated_ns)


class Ramp(DoubleSource):
    """A source that can be predicted."""

    calls = 0

    def source(self, index):
        self.calls += 1
        return self.calls * 0.25 + index


class IntRamp(PrimitiveSource[Int32]):
    """A source of integers."""

    kind = Int32
    calls = 0

    def source(self, index):
        self.calls += 1
        return self.calls % 7 - index


class Quiet(GaussianSource):
    """Unchanged."""


def wave(amplitude, steps, step, phase):
    """What's expected of a waveform."""
    angle = (math.tau / steps) * step + phase
    return amplitude * math.sin(angle), amplitude * math.cos(angle)


def near(got, want, step):
    """Floating-point comparison (angles grow)."""
    return abs(got - want) <= 1e-6 * (1 + abs(step) * 1e-6)


def check_real(case, stamp, before, where):
    """A real timestamp."""
    case.event("real")
    case.expect(
        before <= stamp <= time.time_ns(), "real-time",
        f"{where}: {stamp} not in [{before}, {time.time_ns()}]",
    )


class World:
    """What should be."""

    def __init__(self, case, stepper, config):
        self.case = case
        self.stepper = stepper
        self.count = config.get("count", 1)
        self.delta = config.get("step_dt_ns", 1)
        self.simulated = False
        self.total = 0
        self.now = 0


def build(case, arb):
    """Register random parts of an application."""

    rng = case.rng
    for kind in (ToggleStepper, Derived, Probe, Ramp, IntRamp, TrigStruct,
                 Quiet):
        arb.register_struct_factory(kind)
    arb.register_task_factory(StepperToggler())
    arb.register_task_factory(Sinusoid())
    config = {}
    if rng.random() < 0.6:
        case.event("configured")
        config["count"] = rng.choice([0, 1, 2, 4, 7])
    if rng.random() < 0.7:
        config["step_dt_ns"] = rng.choice([1, 2, 1000, 10**6, 10**9, 12345])
    if rng.random() < 0.2:
        case.event("local")
        config["global"] = False
    kind = "ToggleStepper"
    if rng.random() < 0.25:
        case.event("derived")
        kind = "Derived"
    others = []
    items = [("stepper", kind, config)]
    if rng.random() < 0.25:
        case.event("two_steppers")
        extra = {"global": False} if rng.random() < 0.5 else {}
        items.append(
            ("other", rng.choice(["ToggleStepper", "Derived"]), extra)
        )
    for i in range(rng.randint(1, 4)):
        what = rng.choice(["Probe", "Probe", "Ramp", "IntRamp", "TrigStruct",
                           "Quiet"])
        size = rng.choice([{}, {"count": rng.randint(0, 3)}])
        items.append(
            (f"s{i}", what, size if what in ("Ramp", "IntRamp") else {})
        )
        others.append(f"s{i}")
    rng.shuffle(items)
    for name, what, conf in items:
        case.expect(arb.factory_struct(what, name, conf), "struct", what)
    return config, others


def stepping(case):
    """An application is stepped."""

    rng = case.rng
    case.event("apps")

    async def main():
        arb = ConnectionArbiter(logger=LOG)
        config, others = build(case, arb)
        if rng.random() < 0.4:
            arb.factory_task("StepperToggler", "toggler", period_s=1.0)
        trace = []
        world_total = [0]

        async def app(info):
            stepper = info.structs["stepper"]
            world = World(case, stepper, config)
            items = [info.structs[x] for x in others]
            polled = config.get("global", True)
            polls = {x.name: 0 for x in items}
            if not polled and rng.random() < 0.7:
                pick = rng.choice(items)
                stepper.to_poll.add(pick)
                registered = [pick]
            else:
                registered = items if polled else []
            trig = {
                x.name: [x.amplitude.value, x.steps.value,
                         x.sin_phase_angle.value, x.cos_phase_angle.value]
                for x in items if isinstance(x, TrigStruct)
            }
            case.equal(stepper.count.value, world.count, "configured-count",
                       str(config))
            for item in trig.values():
                case.equal(item, [1.0, 64.0, 0.0, 0.0], "trig-defaults")

            def inspect(iterations, before, start):
                """After some number of iterations."""
                case.equal(stepper.counts.value, world.total, "counts",
                           f"{config} {trace[-3:]}")
                if iterations:
                    if world.simulated:
                        last = world.now - world.delta
                        case.expect(
                            abs(stepper.time_s.value - last / 1e9)
                            <= 1e-12 + abs(last) * 1e-24, "time",
                            f"{stepper.time_s.value} {last}",
                        )
                        case.event("simulated")
                    else:
                        check_real(
                            case, stepper.time_s.value * 1e9 + 1000,
                            before - 1000, "time_s",
                        )
                for item in items:
                    mine = iterations if item in registered else 0
                    polls[item.name] += mine
                    total = polls[item.name]
                    if isinstance(item, Probe):
                        seen, item.seen = item.seen, []
                        case.equal(len(seen), 2 * mine, "polls",
                                   f"{item.name} {config} {trace[-3:]}")
                        case.equal(item.value.value, total, "poll-value")
                        for i, stamp in enumerate(seen):
                            case.event("stamps")
                            if world.simulated:
                                case.equal(
                                    stamp, start + (i // 2) * world.delta,
                                    "simulated-time",
                                    f"{config} {trace[-3:]}",
                                )
                            else:
                                check_real(case, stamp, before, "poll")
                    elif isinstance(item, (Ramp, IntRamp)):
                        size = len(item.outputs)
                        case.equal(item.calls, total * size, "source-calls",
                                   f"{trace[-3:]}")
                    elif isinstance(item, TrigStruct):
                        case.equal(item.iterations.value, total, "polls",
                                   f"{item.name} {trace[-3:]}")
                        if mine:
                            amp, steps, sin, cos = trig[item.name]
                            case.event("waves")
                            case.expect(
                                near(item.sin.value,
                                     wave(amp, steps, total - 1, sin)[0],
                                     total)
                                and near(item.cos.value,
                                         wave(amp, steps, total - 1, cos)[1],
                                         total),
                                "wave", f"{item.name} {total}",
                            )
                            if world.simulated:
                                case.expect(
                                    item.iterations.last_updated_ns
                                    == world.now - world.delta,
                                    "channel-time", item.name,
                                )

            def iterate(count, how):
                """Steps happened."""
                case.event("iterations", count)
                world.total += count
                world_total[0] = world.total
                world.now += count * world.delta

            for _ in range(rng.randint(5, 40)):
                roll = rng.random()
                before, start = time.time_ns(), world.now
                trace.append(round(roll, 2))
                if roll < 0.45:
                    # An edge.
                    how = rng.choice(["toggle", "command", "set"])
                    if how == "toggle":
                        stepper.step.toggle()
                    elif how == "command":
                        case.expect(
                            bool(stepper.command.command("toggle step")),
                            "command",
                        )
                    else:
                        stepper.step.value = not stepper.step.value
                    case.event("edges")
                    iterate(world.count, how)
                    inspect(world.count, before, start)
                elif roll < 0.52:
                    # Not an edge.
                    case.event("no_edges")
                    if rng.random() < 0.5:
                        stepper.step.value = stepper.step.value
                    else:
                        stepper.command.command(
                            f"set step {str(stepper.step.value).lower()}"
                        )
                    inspect(0, before, start)
                elif roll < 0.6:
                    stepper.poll()
                    iterate(1, "poll")
                    inspect(1, before, start)
                elif roll < 0.72:
                    case.event("counts")
                    world.count = rng.choice([0, 1, 1, 2, 3, 10, 30])
                    if rng.random() < 0.5:
                        stepper.count.value = world.count
                    else:
                        stepper.command.command(f"set count {world.count}")
                    inspect(0, before, start)
                elif roll < 0.88:
                    case.event("selections")
                    if rng.random() < 0.5:
                        stepper.command.command("toggle simulate_time")
                        world.simulated = not world.simulated
                    else:
                        world.simulated = rng.random() < 0.5
                        stepper.simulate_time.value = world.simulated
                    if world.simulated:
                        case.equal(default_time_ns(), world.now, "selected")
                    else:
                        check_real(case, default_time_ns(), before, "now")
                elif roll < 0.94 and trig:
                    case.event("parameters")
                    name = rng.choice(list(trig))
                    index = rng.randrange(4)
                    value = [
                        rng.choice([0.0, 0.5, 2.0]),
                        rng.choice([16.0, 3.0, 256.0]),
                        rng.choice([0.0, 1.5, -3.0]),
                        rng.choice([0.0, 1.5, -3.0]),
                    ][index]
                    trig[name][index] = value
                    struct = info.structs[name]
                    attr = ["amplitude", "steps", "sin_phase_angle",
                            "cos_phase_angle"][index]
                    struct.command.command(f"set {attr} {value}")
                    inspect(0, before, start)
                else:
                    # Something else changes.
                    prim = Uint32()
                    prim.value = 5
                    case.event("stamps")
                    if world.simulated:
                        case.equal(prim.last_updated_ns, world.now, "stamp")
                    else:
                        check_real(case, prim.last_updated_ns, before, "set")
            if world.simulated:
                case.event("left_simulated")
            if rng.random() < 0.2:
                raise asyncio.CancelledError
            return 0

        before = time.time_ns()
        try:
            await apps.launch(arb, app)
        except asyncio.CancelledError:
            pass
        now = default_time_ns()
        check_real(case, now, before, "afterwards")
        case.distinct(tuple(trace), tuple(config.items()))
        case.sample({"config": config, "others": others,
                     "operations": len(trace), "iterations": world_total[0]})

    try:
        vloop.run(main(), limit=1e4, grace=0)
    finally:
        restore_time_source()


class Waves(TrigMixin):
    """Waveforms by themselves."""

    def __init__(self, env):
        self.env = env
        TrigMixin.__init__(self, env)


def waves(case):
    """Waveforms are functions of the current parameters."""

    rng = case.rng
    env = ChannelEnvironment()
    inst = Waves(env)
    command = ChannelCommandProcessor(env, LOG)
    env.finalize(strict=False)
    params = {"amplitude": 1.0, "steps": 64.0, "sin_phase_angle": 0.0,
              "cos_phase_angle": 0.0}
    for name, value in params.items():
        case.equal(env.value(name), value, "trig-defaults", name)
    step, steps = 0, 64.0
    shown = [0.0, 0.0]
    shape = []
    known = [False, False]
    hostile = rng.random() < 0.3
    for _ in range(rng.randint(5, 40)):
        roll = rng.random()
        if roll < 0.5:
            step = rng.choice(
                [step + 1, step + 1, 0, rng.randint(0, 1000), 10**6,
                 rng.randint(-100, 0)]
            )
            inst.dispatch_trig(step)
            steps = params["steps"]
            known = [True, True]
            shape.append(step)
        else:
            case.event("parameters")
            name = rng.choice(list(params))
            if hostile and rng.random() < 0.3:
                case.event("hostile")
                value = rng.choice(
                    [0.0, math.inf, -math.inf, math.nan, 1e30, -5.0]
                )
            elif name == "steps":
                value = rng.choice([1.0, 2.0, 3.0, 16.0, 64.0, 256.0, 0.5])
            elif name == "amplitude":
                value = rng.choice([0.0, 0.5, 1.0, 2.0, -1.0])
            else:
                value = rng.choice([0.0, 0.5, 3.0, -3.0, 1.5])
            old = params[name]
            params[name] = value
            # (Arguments that look like options aren't values.)
            if rng.random() < 0.5 or value == -math.inf:
                env.set(name, value)
            else:
                result = command.command(f"set {name} {value}")
                case.expect(bool(result), "parameter", f"{name} {value}")
            shape.append((name, str(value)))
            if old != value:
                # Changes are seen immediately.
                if name in ("amplitude", "sin_phase_angle"):
                    known[0] = True
                if name in ("amplitude", "cos_phase_angle"):
                    known[1] = True
        del shown[:]
        plain = (
            steps and all(math.isfinite(x) and abs(x) < 1e10
                          for x in [steps, *params.values()])
        )
        if not plain:
            # (Anything, as long as what comes later isn't affected.)
            if params["steps"] == 0 or not steps:
                # The angle doesn't change: what's shown isn't known here.
                steps = steps if steps else 0
            continue
        want = wave(params["amplitude"], steps, step,
                    params["sin_phase_angle"])[0], wave(
            params["amplitude"], steps, step, params["cos_phase_angle"]
        )[1]
        for which, name in enumerate(("sin", "cos")):
            if known[which]:
                case.event("waves")
                case.expect(
                    near(env.value(name), want[which],
                         step / steps * 100), "wave",
                    f"{name}={env.value(name)} want {want[which]}: "
                    f"{shape[-4:]}",
                )
    case.distinct(tuple(shape))


def sources(case):
    """Outputs are scaled by their own amplitudes."""

    rng = case.rng

    async def main():
        arb = ConnectionArbiter(logger=LOG)
        for kind in (Ramp, IntRamp, Quiet):
            arb.register_struct_factory(kind)
        count = rng.choice([0, 1, 2, 5])
        config = {"count": count} if rng.random() < 0.8 else {}
        if not config:
            count = 1
        kind = rng.choice(["Ramp", "Ramp", "IntRamp", "Quiet"])
        arb.factory_struct(kind, "source", config)

        async def app(info):
            struct = info.structs["source"]
            case.equal(len(struct.outputs), count, "source-count")
            amps = [1.0] * count
            done = 0
            for _ in range(rng.randint(3, 15)):
                if count and rng.random() < 0.5:
                    index = rng.randrange(count)
                    amps[index] = float(rng.choice([0, 1, 2, 3]))
                    case.expect(
                        bool(struct.command.command(
                            f"set {index}.amplitude {amps[index]}"
                        )), "amplitude",
                    )
                else:
                    struct.poll()
                    for index in range(count):
                        case.event("sources")
                        done += 1
                        got = struct.env.value(f"{index}.output")
                        if kind == "Ramp":
                            want = amps[index] * (done * 0.25 + index)
                        elif kind == "IntRamp":
                            want = amps[index] * (done % 7 - index)
                        elif amps[index]:
                            case.expect(math.isfinite(got), "source-value")
                            continue
                        else:
                            want = 0.0
                        case.equal(got, want, "source-value", f"{index}")
                for index in range(count):
                    case.equal(struct.amplitudes[index].value, amps[index],
                               "amplitude", str(index))
            case.distinct(kind, count, tuple(amps), done)
            return 0

        case.equal(await apps.launch(arb, app), 0, "app-result")

    vloop.run(main(), limit=1e4, grace=0)


def togglers(case):
    """Tasks that step and tasks that generate waveforms."""

    rng = case.rng

    async def main():
        arb = ConnectionArbiter(logger=LOG)
        for kind in (ToggleStepper, Probe):
            arb.register_struct_factory(kind)
        arb.register_task_factory(StepperToggler())
        arb.register_task_factory(Sinusoid())
        count = rng.choice([1, 2, 5])
        steppers = rng.choice([1, 1, 2])
        for i in range(steppers):
            arb.factory_struct("ToggleStepper", f"clock{i}", {"count": count})
        arb.factory_struct("Probe", "probe", {})
        period = rng.choice([0.01, 0.1, 0.5])
        arb.factory_task("StepperToggler", "toggler", period_s=period)
        arb.factory_task("Sinusoid", "sine", period_s=period)

        async def app(info):
            case.event("toggler_runs")
            toggler = next(info.search_tasks(ToggleStepperTask))
            sine = next(info.search_tasks(SinusoidTask))
            probe = info.structs["probe"]
            clock = info.structs["clock0"]
            edges = []
            clock.step.register_callback(lambda _, curr: edges.append(curr))
            waits = rng.choice([0.0, 1.0, 2.3])
            await asyncio.sleep(waits)
            case.equal(probe.value.value, 0, "started-paused")
            case.expect(toggler.paused.value, "started-paused")
            for _ in range(rng.randint(1, 4)):
                start = len(edges)
                value = probe.value.value
                toggler.command.command("set paused false")
                spent = rng.choice([0.3, 1.0, 2.0])
                await asyncio.sleep(spent)
                toggler.command.command("set paused true")
                await asyncio.sleep(period * 1.5)
                made = len(edges) - start
                case.event("toggled", made)
                case.expect(
                    abs(made - spent / period) <= 3 + 0.1 * spent / period, "toggle-rate",
                    f"{made} edges in {spent} s at {period} s",
                )
                case.equal(
                    probe.value.value - value, made * count * steppers,
                    "toggle-polls",
                )
                before = probe.value.value
                await asyncio.sleep(1.0)
                case.equal(probe.value.value, before, "paused")
            case.event("sinusoids")
            for _ in range(3):
                await asyncio.sleep(rng.choice([0.2, 1.0]))
                step = sine.metrics.dispatches.value
                got = sine.sin.value, sine.cos.value
                want = [wave(1.0, 64.0, x, 0.0)
                        for x in (step, step - 1)]
                case.expect(
                    any(near(got[0], x[0], step) and near(got[1], x[1], step)
                        for x in want), "sinusoid", f"{step} {got} {want}",
                )
            case.expect(not edges or edges == [
                not i % 2 for i in range(len(edges))
            ], "edges")
            # Parameters can be anything.
            case.event("hostile")
            name = rng.choice(["steps", "amplitude", "sin_phase_angle"])
            value = rng.choice(["0", "inf", "nan"])
            sine.command.command(f"set {name} {value}")
            await asyncio.sleep(1.0)
            defaults = {"steps": 64.0, "amplitude": 1.0}
            sine.command.command(f"set {name} {defaults.get(name, 0.0)}")
            await asyncio.sleep(1.0)
            step = sine.metrics.dispatches.value
            case.expect(
                any(near(sine.cos.value, wave(1.0, 64.0, x, 0.0)[1], step)
                    and near(sine.sin.value, wave(1.0, 64.0, x, 0.0)[0], step)
                    for x in (step, step - 1)), "sinusoid-after",
                f"{name} {value}: {step} {sine.sin.value}",
            )
            before = sine.metrics.dispatches.value
            await asyncio.sleep(1.0)
            case.expect(sine.metrics.dispatches.value > before,
                        "sinusoid-ended", f"{name} {value}")
            case.distinct(period, count, steppers, len(edges), name, value)
            return 0

        case.equal(await apps.launch(arb, app), 0, "app-result")

    vloop.run(main(), limit=1e4, grace=0)


KINDS = {
    "stepping": (stepping, 600, 8000),
    "waves": (waves, 600, 15000),
    "sources": (sources, 300, 4000),
    "togglers": (togglers, 100, 1500),
}
