"""C12: streamed channel events reproduce every change."""

from contextlib import ExitStack
from io import BytesIO
import json
import logging
import math
import re
import struct

from lib import envs, prims

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command import GlobalEnvironment
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.channel.registry import ParsedEvent
from runtimepy.metrics.channel import ChannelMetrics

PROPERTY = "C12"
RULE = (
    "random environments streamed through several start/stop periods "
    "(patterns, rate limits, overlapping registrations, raising bodies) with "
    "an independent wire model, then parsed from random chunks; non-trivial = "
    "distinct byte stream with at least three events"
)
REQUIRED = {"events": 4000, "limited": 150, "outside": 1000, "chunks": 3000,
            "field_events": 500, "ingested": 2000, "split_inside": 500,
            "raised": 20, "refused": 20, "text_logs": 15,
            "exact_channels": 3}


def encode(spec, stamp, raw):
    """The wire format of one event."""
    return struct.pack("!HQ", spec.ident, stamp) + prims.model_encode(
        spec.kind, raw, "big"
    )


def stored(model, spec):
    return (
        model.words[spec.group] if spec.is_field else model.raw[spec.name]
    )


class Period:
    """A streaming period with its expected output."""

    def __init__(self, model, pattern, exact):
        self.selected = [
            x
            for x in model.order
            if re.search(pattern, x) and (not exact or x == pattern)
        ]
        self.stream = BytesIO()
        self.metrics = ChannelMetrics()
        self.want = []  # (spec, stamp, raw)
        self.prev = {}
        for name in self.selected:
            spec = model.specs[name]
            self.add(model, spec, first=True)

    def add(self, model, spec, first=False):
        stamp = envs.primitive(model, spec.name).last_updated_ns
        period = round((spec.period or 0.0) * 1e9)
        if not first and not spec.is_field and spec.period:
            elapsed = stamp - self.prev[spec.name]
            if 0 <= elapsed < period:
                return False
        self.prev[spec.name] = stamp
        self.want.append((spec, stamp, stored(model, spec)))
        return True


def same_events(case, got, want, where):
    """Compare (id, stamp, raw) sequences."""
    case.equal(len(got), len(want), "event-count", where)
    for i, (event, (spec, stamp, raw)) in enumerate(zip(got, want)):
        if (event[0], event[1]) != (spec.name, stamp) or not prims.same(
            event[2], raw
        ):
            case.fail(
                "event",
                f"{where} #{i} got={event} want={(spec.name, stamp, raw)}",
            )
        case.event("oracle_evaluations")


def check_bytes(case, period):
    data = period.stream.getvalue()
    parts = [encode(*x) for x in period.want]
    want = b"".join(parts)
    # Initial events may come in any order, changes come in theirs.
    if data != want:
        case.fail(
            "stream",
            f"{len(data)} of {len(want)} bytes; "
            f"{data.hex()[:400]} / {want.hex()[:400]}",
        )
    case.event("oracle_evaluations")
    case.event("events", len(parts))
    case.equal(period.metrics.bytes.value, len(want), "metrics-bytes")
    case.equal(period.metrics.messages.value, len(parts), "metrics-messages")


def change(case, model, clock, periods):
    """Assign something; tell the active periods about an actual change."""
    rng = case.rng
    name = rng.choice(model.order)
    spec = model.specs[name]
    raw = envs.random_raw(rng, spec, nan=True)
    if rng.random() < 0.2:
        raw = model.get(name)
    prim = envs.primitive(model, name)
    before = stored(model, spec)
    clock[0] += rng.choice([0, 1, 1000, 10**6, 6 * 10**8, 25 * 10**8])
    if not spec.period and rng.random() < 0.1:
        clock[0] -= rng.randrange(10**9)
    how = rng.randrange(3)
    if spec.is_field:
        if how == 0:
            model.env.set(name, raw)
        elif how == 1:
            model.env.fields[name](raw)
        else:
            saved = model.words[spec.group]
            model.put(name, raw)
            prim.set_value(model.words[spec.group], timestamp_ns=clock[0])
            model.words[spec.group] = saved
    elif spec.period or how:
        prim.set_value(raw, timestamp_ns=clock[0])
    else:
        model.env.set(name, raw, scaled=False)
    if spec.kind == "float" and math.isfinite(raw):
        raw = prims.to_single(raw)
    model.put(name, raw)
    after = stored(model, spec)
    if before == after or after != after:
        # Listeners (and streams) aren't told about NaN.
        return
    # Everything that's stored in this primitive, in registration order.
    shared = [
        model.specs[x]
        for x in model.order
        if envs.primitive(model, x) is prim
    ]
    hit = False
    for period in periods:
        for other in shared:
            if other.name in period.selected:
                if not period.add(model, other):
                    case.event("limited")
                elif other.is_field:
                    case.event("field_events")
                hit = True
    if not hit:
        case.event("outside")


def order_fields(model):
    """Bit-field events come first, in registration order."""
    fields = [x for x in model.order if model.specs[x].is_field]
    chans = [x for x in model.order if not model.specs[x].is_field]
    # Names are searched in group order.
    groups = {}
    for name in fields:
        groups.setdefault(model.specs[name].group, []).append(name)
    model.order[:] = [x for g in groups.values() for x in g] + chans


def receive(case, env, period, specs):
    """Feed a receiver with random chunks."""
    rng = case.rng
    data = period.stream.getvalue()
    ends, total = [], 0
    for item in period.want:
        total += len(encode(*item))
        ends.append(total)
    got, pos = [], 0
    style = rng.choice(["byte", "small", "any", "whole"])
    while pos < len(data):
        size = {
            "byte": 1,
            "small": rng.randint(1, 13),
            "any": rng.randint(1, 60),
            "whole": len(data),
        }[style]
        chunk = data[pos: pos + size]
        pos += len(chunk)
        for event in env.parse_event_stream(BytesIO(chunk)):
            got.append(event)
            env.ingest(event)
            case.event("ingested")
        if rng.random() < 0.1:
            case.equal(
                list(env.parse_event_stream(BytesIO())), [], "spurious"
            )
        done = sum(x <= pos for x in ends)
        if pos not in ends:
            case.event("split_inside")
        case.equal(len(got), done, "events-so-far", f"at byte {pos}")
        case.event("chunks")
    same_events(case, got, period.want, "parsed")
    by_channel = ParsedEvent.by_channel(got)
    for name, events in by_channel.items():
        case.equal(
            [x.timestamp for x in events],
            [x[1] for x in period.want if x[0].name == name],
            "by-channel",
        )
    last = {}
    for spec, _, raw in period.want:
        last[(spec.group, spec.name if spec.group is None else "")] = (
            spec, raw
        )
    for spec, raw in last.values():
        if spec.is_field:
            got_raw = env.fields[spec.name].raw.value
        else:
            got_raw = env.value(spec.name, resolve_enum=False, scaled=False)
        case.expect(
            prims.same(got_raw, raw),
            "receiver-value",
            f"{spec.name} got={got_raw} want={raw}",
        )


class Boom(Exception):
    """Raised inside a streaming period."""


def streams(case):
    """Streaming periods over a changing environment."""
    rng = case.rng
    model = envs.build(case, periods=True)
    order_fields(model)
    env = model.env
    envs.randomize(case, model)
    receiver = ChannelEnvironment.load_json(
        json.loads(json.dumps(env.export_json()))
    )
    clock = [max(
        envs.primitive(model, x).last_updated_ns for x in model.order
    )]
    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.randint(0, 6)):
            change(case, model, clock, [])
        name = rng.choice(model.order)
        pattern, exact = rng.choice(
            [(".*", False), (".*", False), (re.escape(name), False),
             ("[a-m0-5]", False), ("^" + re.escape(name[0]), False)]
        )
        if rng.random() < 0.1 and re.fullmatch(r"[\w-]+", name):
            pattern, exact = name, True
        raising = rng.random() < 0.15
        flush = rng.random() < 0.5
        period = Period(model, pattern, exact)
        try:
            with env.registered(
                period.stream,
                pattern=pattern,
                exact=exact,
                flush=flush,
                channel=period.metrics,
            ) as chans:
                case.equal(
                    sorted(chans), sorted(period.selected), "registered"
                )
                for _ in range(rng.randint(0, 40)):
                    change(case, model, clock, [period])
                overlap = [
                    x for x in period.selected if not model.specs[x].is_field
                ]
                if overlap and rng.random() < 0.2:
                    # A channel has at most one stream at a time.
                    other = BytesIO()
                    try:
                        with env.channels.registered(other):
                            case.fail("double-registration", overlap[0])
                    except AssertionError:
                        case.event("refused")
                    size = len(other.getvalue())
                    for _ in range(rng.randint(0, 10)):
                        change(case, model, clock, [period])
                    case.equal(len(other.getvalue()), size, "refused-stream")
                if raising:
                    raise Boom
        except Boom:
            case.event("raised")
        for _ in range(rng.randint(1, 12)):
            change(case, model, clock, [])
        check_bytes(case, period)
        receive(case, receiver, period, model.specs)
        if len(period.want) >= 3:
            case.distinct([(x[0].name, x[2]) for x in period.want])
    case.sample(f"{len(model.order)} items, last {len(period.want)} events")


def disjoint(case):
    """Several streams at once for different channels."""
    rng = case.rng
    model = envs.build(case, fields=False, periods=True)
    env = model.env
    envs.randomize(case, model)
    clock = [max(x.chan.raw.last_updated_ns for x in model.specs.values())]
    plain = [x for x in model.order if re.fullmatch(r"[\w-]+", x)]
    chosen = rng.sample(plain, min(3, len(plain)))
    with ExitStack() as stack:
        active = []
        for name in chosen:
            period = Period(model, name, True)
            stack.enter_context(
                env.registered(
                    period.stream, pattern=name, exact=True,
                    channel=period.metrics,
                )
            )
            active.append(period)
            for _ in range(15):
                change(case, model, clock, active)
    for _ in range(10):
        change(case, model, clock, [])
    for period in active:
        check_bytes(case, period)


def files(case):
    """Environments logged to files and read back."""
    rng = case.rng
    root = case.scratch
    out = GlobalEnvironment(root=root)
    models = {}
    for i in range(rng.randint(1, 3)):
        model = envs.build(case, fields=rng.random() < 0.5)
        envs.randomize(case, model)
        models[f"env{i}"] = model
        out.register(
            f"env{i}", ChannelCommandProcessor(
                model.env, logging.getLogger(f"env{i}")
            )
        )
    periods = {}
    pattern, exact = rng.choice(
        [("env", False), ("env0", False), ("[01]", False), ("env0", True),
         ("env1", True), ("env", True), (".*", False)]
    )
    chosen = [
        x
        for x in models
        if re.search(pattern, x) and (not exact or x == pattern)
    ]
    chan_pattern, chan_exact = ".*", False
    if rng.random() < 0.6:
        some = rng.choice([x for y in models.values() for x in y.order])
        chan_pattern, chan_exact = rng.choice(
            [("[a-m0-5]", False), (re.escape(some), False),
             ("^" + re.escape(some[0]), False)]
        )
        if rng.random() < 0.4 and re.fullmatch(r"[\w-]+", some):
            chan_pattern, chan_exact = some, True
            case.event("exact_channels")
    path = rng.choice(["event_stream.bin", "events.x"])
    text_log = rng.random() < 0.5
    marks = [f"mark {rng.random()}" for _ in range(3)]
    root_log = logging.getLogger()
    clock = [0]
    for name in chosen:
        model = models[name]
        chans = [
            x
            for x in model.order
            if not model.specs[x].is_field
            and re.search(chan_pattern, x)
            and (not chan_exact or x == chan_pattern)
        ]
        period = Period(model, "^\x00$", False)
        period.selected = chans
        for chan in chans:
            period.add(model, model.specs[chan], first=True)
        periods[name] = period
        clock[0] = max(
            [clock[0]]
            + [envs.primitive(model, x).last_updated_ns for x in model.order]
        )
    root_log.critical(marks[0])
    before = list(root_log.handlers)
    with out.event_telemetry_output(
        env_pattern=pattern,
        env_exact=exact,
        channel_pattern=chan_pattern,
        channel_exact=chan_exact,
        event_path=path,
        text_log=text_log,
    ) as listing:
        root_log.critical(marks[1])
        case.equal(
            {x: sorted(y) for x, y in listing},
            {x: sorted(periods[x].selected) for x in chosen},
            "listing",
        )
        for _ in range(60):
            name = rng.choice(list(models))
            active = [periods[name]] if name in periods else []
            change(case, models[name], clock, active)
    root_log.critical(marks[2])
    case.equal(root_log.handlers, before, "handlers-left")
    log = root / "log.txt"
    case.equal(log.is_file(), text_log, "text-log")
    if text_log:
        text = log.read_text(encoding="utf-8")
        case.equal([x in text for x in marks], [False, True, False],
                   "logged-text")
        case.event("text_logs")
    case.equal(
        sorted(x.name for x in root.iterdir() if x.is_dir()), sorted(chosen),
        "directories",
    )
    for name, model in models.items():
        for _ in range(3):
            change(case, model, clock, [])
    loaded = GlobalEnvironment.from_root(root)
    case.equal(sorted(loaded), sorted(chosen), "loaded-environments")
    for name, period in periods.items():
        got = list(loaded.read_event_stream(name, path=path))
        same_events(case, got, period.want, f"file {name}")
        case.event("events", len(got))
    case.event("files", len(periods))


KINDS = {
    "streams": (streams, 1500, 9000),
    "disjoint": (disjoint, 120, 800),
    "files": (files, 150, 540),
}
