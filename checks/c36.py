"""C36: what users see and do in the browser is what the server has."""

import json
import math
import re

from lib import browser, envs, names
from lib.envs import scale
from checks import c28

from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.net.server.app.base import WebApplication
from runtimepy.net.server.app.env import channel_environments
from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
from runtimepy.net.server.html import get_html
from runtimepy.net.server.websocket.state import TabState

PROPERTY = "C36"
RULE = (
    "random use (tabs, controls, plots, filters, settings, links, reloads) "
    "of served pages, whose scripts run in a small browser against real "
    "tabs of random environments that change; what's shown, drawn and sent "
    "is compared with the environments; non-trivial = distinct history"
)
REQUIRED = {"frames": 1000, "rows": 8000, "shows": 150, "controls": 180,
            "lines": 400, "points": 2000, "wheels": 300, "full_buffers": 8,
            "shrunk_buffers": 5,
            "clears": 35, "reloads": 18, "filters": 40, "stale": 100,
            "links": 12, "paced": 100, "fallbacks": 20, "logs": 100,
            "units": 60, "tight": 60, "digits": 20, "odd_links": 3,
            "skipped_frames": 50, "zero_defaults": 40}


class Task:
    """A source of a tab."""

    markdown = "about this"

    def __init__(self, command):
        self.command = command


class App:
    """Enough of an application to serve pages."""

    def __init__(self, tasks):
        self.connections = {}
        self.tasks = tasks
        self.structs = {}
        self.peers = {}
        self.logger = c28.make_logger("app")

    def config_param(self, key, default, strict=False):
        del key, strict
        return default


def enum_items(rng, bits=8, signed=False):
    """Members of enumerations, also ones that start like a number."""
    items = original(rng, bits, signed)
    return {
        rng.choice(["3rd_", "0x", "1.5.", "Infinity_", "-7"]) + x
        if rng.random() < 0.3 else x: y
        for x, y in items.items()
    }


original = names.enum_items


def build(case):
    """An environment and its twin."""
    names.enum_items = enum_items
    try:
        return c28.build(
            case, infinite=case.rng.random() < 0.2, size=6
        )
    finally:
        names.enum_items = original


class Served:
    """A tab of the server."""

    def __init__(self, case, name):
        rng = case.rng
        self.name = name
        self.model, self.twin = build(case)
        self.env = self.model.env
        for item in (self.model, self.twin):
            for spec in item.specs.values():
                spec.description = None
                if not spec.is_field:
                    spec.chan.description = None
        # The ones that are false are defaults, too.
        for key, spec in self.model.specs.items():
            if spec.default is not None and rng.random() < 0.4:
                for item in (self.model, self.twin):
                    other = item.specs[key]
                    other.default = type(spec.default)(0)
                    other.chan.default = other.default
                if spec.commandable:
                    case.event("zero_defaults")
        self.logger = c28.make_logger(f"tab.{name}")
        self.proc = ChannelCommandProcessor(self.env, self.logger)
        self.mirror = ChannelCommandProcessor(
            self.twin.env, c28.make_logger("twin")
        )
        self.customs = rng.sample(["reload_all", "zap", "x_b"],
                                  rng.choice([0, 1, 3]))
        for item in self.customs:
            async def custom(args, chan):
                pass
            custom.__name__ = item
            self.proc.register_custom_commands(custom)
        self.tab = None
        self.commands = []

    @property
    def order(self):
        return self.model.order

    def numeric(self):
        return [
            x for x in self.order if not self.model.specs[x].enum
        ]

    def controlled(self):
        return [
            x for x in self.order
            if self.model.specs[x].commandable and not x.startswith("-")
        ]

    def change(self, rng, name=None):
        """Change an item of both environments."""
        name = name or rng.choice(self.order)
        spec = self.model.specs[name]
        raw = c28.random_raw(rng, spec, infinite=False)
        if spec.is_float and rng.random() < 0.7:
            raw = round(rng.uniform(-100, 100), rng.choice([0, 2, 6]))
        for item in (self.model, self.twin):
            c28.put(item, name, raw)

    def adopt(self):
        """The model follows commands."""
        for item in (self.model, self.twin):
            for name in self.order:
                raw = item.env.value(name, resolve_enum=False, scaled=False)
                item.put(name, raw)


def css(name, prefix="#"):
    """A selector for something named."""
    return prefix + "".join(
        x if re.match(r"[A-Za-z_]", x) or (i and re.match(r"[-\w]", x))
        else "\\" + format(ord(x), "x") + " "
        for i, x in enumerate(name)
    )


def finish(coro):
    """Run something that doesn't wait for anything."""
    try:
        coro.send(None)
    except StopIteration as exc:
        return exc.value
    raise AssertionError("it waits")


def frame(message):
    """A message for the browser."""
    raw = json.dumps(message).encode()
    return len(raw).to_bytes(4, "big") + raw


class Plotted:
    """What a tab's plot must contain."""

    def __init__(self):
        self.on = {}  # channel -> points
        self.capacity = None
        self.wheeled = False
        self.visible = True


class Session:
    """One browser window and the server's side of it."""

    def __init__(self, case, view, served, html, config):
        self.case = case
        self.view = view
        self.served = served
        self.by_name = {x.name: x for x in served}
        self.html = html
        self.config = config
        self.time = case.rng.choice([0.0, 1000.0, 50000.0])
        self.json = config["json"]
        self.data = config["data"]
        self.reset()

    # What the page was told to be (kept by its address).

    def reset(self):
        self.shown = self.served[0].name
        self.tab_filter = ""
        self.filters = {x.name: "" for x in self.served}
        self.tabs_hidden = False
        self.channels_hidden = False
        self.light = False
        self.period = 0
        self.exempt = self.shown
        self.checked = {x.name: [] for x in self.served}

    def load(self, link=""):
        """Load the page."""

        rng = self.case.rng
        self.states = {x.name: TabState.create() for x in self.served}
        self.plots = {}
        self.contexts = 0
        self.sent_at = 0.0
        self.logs = {x.name: "" for x in self.served}
        self.stamps = {x.name: {} for x in self.served}
        self.polled = {}
        self.hidden_since = {}
        self.rowed = set()
        for item in self.served:
            item.commands.clear()
        self.view.sockets.clear()
        self.view.sent.clear()
        self.view.op(
            "load", tree=self.html, config=self.config["json_data"],
            hash=link, seed=rng.randint(1, 1 << 30),
            hostname=self.config["hostname"],
        )
        self.case.equal(
            sorted(self.view.sockets), sorted([self.json, self.data]),
            "sockets", "connections of the page",
        )
        self.case.equal(
            self.view.sent.get(self.json, []), [], "sent-early"
        )
        for url in rng.sample([self.json, self.data], 2):
            self.view.op("open", url=url)
        # Checked channels are plotted once their tab is shown.
        self.pending = {x: list(y) for x, y in self.checked.items()}

    def close(self):
        for state in self.states.values():
            state.clear_loggers()

    def serve(self):
        """Handle everything the page sent."""

        out = []
        for raw, text in self.view.take(self.json):
            self.case.expect(not text, "text-message")
            self.case.expect(len(raw) >= 4, "framing", repr(raw[:80]))
            self.case.equal(
                int.from_bytes(raw[:4], "big"), len(raw) - 4, "framing"
            )
            out.extend(self.handle(json.loads(raw[4:])))
        self.deliver(out)

    def handle(self, data):
        case = self.case
        ui = data.get("ui")
        case.expect(
            isinstance(ui, dict) and set(data) == {"ui"}, "sent", str(data)
        )
        out = []
        if "time" in ui:
            reply = {}
            for item in self.served:
                result = self.states[item.name].frame(ui["time"])
                if result:
                    reply[item.name] = result
            self.times.append(ui["time"])
            if reply:
                out.append({"ui": reply, "__id__": len(self.times)})
            return out
        name, event = ui["name"], ui["event"]
        case.expect(name in self.by_name, "sent-tab", str(data))
        item = self.by_name[name]
        if event["kind"] == "command":
            item.commands.append(event["value"])
        response = finish(
            item.tab.handle_message(
                event, lambda x: out.append({"ui": {name: x}}),
                self.states[name],
            )
        )
        if response:
            out.append({"ui": {name: response}})
        return out

    times = []

    def deliver(self, messages):
        """Send messages (several may arrive at once)."""

        for message in messages:
            message.pop("__id__", None)
            self.expectations(message["ui"])
        while messages:
            count = self.case.rng.choice([1, 1, 2, 5])
            raw = b"".join(frame(x) for x in messages[:count])
            messages = messages[count:]
            self.view.receive(self.json, raw)
            self.case.event("messages", count)

    def expectations(self, ui):
        """What messages mean for the page."""

        for name, data in ui.items():
            if name not in self.by_name:
                continue
            plot = self.plots.get(name)
            for text in data.get("log_messages", []):
                self.logs[name] += text + "\n"
                self.case.event("logs")
            for chan, points in data.get("points", {}).items():
                self.touch(name, chan)
                if plot and chan in plot.on:
                    plot.on[chan].extend(points)
                    self.case.event("points", len(points))
                    if len(plot.on[chan]) > plot.capacity:
                        self.case.event("full_buffers")
                    plot.on[chan] = plot.on[chan][-plot.capacity:]
            if "points" in data and plot:
                plot.tight = not plot.wheeled
            for chan in self.by_name[name].order:
                if chan in data:
                    self.touch(name, chan)
            for action in data.get("actions", []):
                if action == "clear_points":
                    self.cleared(name)

    def touch(self, name, chan):
        """A value arrived."""
        self.stamps[name][chan] = self.polled.get(name)

    def cleared(self, name):
        plot = self.plots.get(name)
        if plot:
            for chan in plot.on:
                plot.on[chan] = []
            plot.tight = False
            self.case.event("clears")

    def settle(self):
        """Until nothing's left to answer."""
        for _ in range(10):
            if not self.view.sent.get(self.json):
                return
            self.serve()
        self.case.fail("chatter", "the page doesn't stop sending")

    def refresh(self, step=None):
        """A frame; then everything's current."""

        case, rng = self.case, self.case.rng
        if step is None:
            step = rng.choice([1, 16, 16.7, 200, 800])
            if step < self.period:
                step = self.period
        self.time += step
        self.times.clear()
        due = self.sent_at + self.period <= self.time
        self.settle()
        self.view.op("frame", who="worker", time=self.time)
        self.settle()
        case.equal(
            self.times, [self.time] if due else [], "frame-times",
            f"period {self.period}, last {self.sent_at}",
        )
        if self.period:
            case.event("paced")
        if not due:
            case.event("skipped_frames")
        if due:
            self.sent_at = self.time
        self.view.op("frame", who="main", time=self.time)
        self.polled[self.shown] = self.time
        case.event("frames")
        self.look(due)
        return due

    # What's on the page.

    def look(self, current):
        case = self.case
        name = self.shown
        item = self.by_name[name]
        root = f"runtimepy-{name}"
        rows = self.view.op(
            "get", root=root, sel="tr.channel-row > td.channel-value",
            props=["innerHTML", "class.stale"],
        )
        case.equal(len(rows), len(item.order), "rows", name)
        inputs = {
            x[0]: x[1]
            for x in self.view.op(
                "get", root=root, sel="input.channel-value-input",
                props=["id", "value"],
            )
        }
        values = {
            x: c28.seen(y) for x, y in item.env.values().items()
        }
        for chan, (html, stale) in zip(item.env.names, rows):
            text = html.replace("&nbsp;", "")
            if current:
                want = values[chan]
                case.expect(
                    displays(text, want), "value",
                    f"{name}.{chan} shows {text!r}, is {want!r}",
                )
                case.event("rows")
                if isinstance(want, str) and want[:1].isdigit():
                    case.event("digits")
                if chan in inputs:
                    # (It may still be what was typed.)
                    case.expect(
                        displays(inputs[chan], want), "input-value",
                        f"{chan}: {inputs[chan]!r} is {want!r}",
                    )
            stamp = self.stamps[name].get(chan)
            if stamp is not None and stamp >= self.shown_at:
                case.equal(
                    stale, stamp + 500 < self.time, "stale",
                    f"{name}.{chan} updated at {stamp}, now {self.time}",
                )
                case.event("stale" if stale else "fresh")
        logs = self.view.op(
            "get", root=root, sel="textarea.text-logs", props=["value"]
        )
        case.equal(logs, [[self.logs[name]]], "logs", name)
        self.drawn()

    shown_at = 0.0

    def drawn(self):
        """What's plotted."""

        case = self.case
        plots = {x["id"]: x for x in self.view.op("plots")}
        case.expect(len(plots) <= 4, "contexts", str(len(plots)))
        case.equal(
            set(plots), {f"{x}-plot" for x in self.plots}, "plots"
        )
        name = self.shown
        if name not in self.plots:
            case.event("fallbacks")
            return
        plot, model = plots[f"{name}-plot"], self.plots[name]
        case.equal(
            plot["view"], [0, 0] + plot["size"], "viewport", name
        )
        item = self.by_name[name]
        colors = self.colors(name)
        case.equal(len(plot["lines"]), len(model.on), "lines",
                   f"{name}: {list(model.on)}")
        by_color = {tuple(x["rgba"]): x for x in plot["lines"]}
        maps = []
        for chan, points in model.on.items():
            rgb = re.fullmatch(r"#(..)(..)(..)", colors[chan] or "")
            case.expect(rgb, "line-color", f"{chan}: {colors[chan]!r}")
            key = tuple(int(x, 16) / 255 for x in rgb.groups()) + (1,)
            case.expect(
                key in by_color, "line-color",
                f"no line of {chan}'s color {colors[chan]}",
            )
            line = by_color[key]
            if any(isinstance(x[0], str) for x in points):
                # (Infinity can't be drawn.)
                continue
            self.line(chan, points, line, maps)
        self.axis(name, model, maps)
        del item

    def colors(self, name):
        """Lines' colors, as shown by their buttons."""
        found = self.view.op(
            "get", root=f"runtimepy-{name}", sel="td > button",
            props=["id", "style.color", "class.d-none"],
        )
        shown = {
            x[: -len("-line-color")]: (y, z)
            for x, y, z in found
            if x.endswith("-line-color")
        }
        for chan, (_, hidden) in shown.items():
            self.case.equal(
                hidden, chan not in self.checked[name], "color-button", chan
            )
        return {x: y[0] for x, y in shown.items()}

    def line(self, chan, points, line, maps):
        """One channel's line."""

        case = self.case
        xs, ys = line["xs"], line["ys"]
        case.event("lines")
        if len(points) < 2:
            case.expect(
                len(set(xs)) <= 1 and len(set(ys)) <= 1, "empty-line",
                f"{chan}: {xs[:5]} {ys[:5]}",
            )
            return
        case.expect(
            len(xs) >= len(points), "line-length",
            f"{chan}: {len(xs)} for {len(points)} points",
        )
        for item in (xs, ys):
            case.expect(
                all(isinstance(x, (int, float)) for x in item),
                "line-numbers", f"{chan}: {xs[:5]} {ys[:5]} of {points[:5]}",
            )
            case.expect(
                all(x == item[len(points) - 1] for x in item[len(points):]),
                "line-end", f"{chan}: {item[len(points) - 1:][:5]}",
            )
        values = [float(x[0]) for x in points]
        low, high = min(values), max(values)
        for idx, value in enumerate(values):
            if high == low:
                ok = ys[idx] == ys[0] and -1 <= ys[idx] <= 1
            elif not math.isfinite(high - low):
                ok = True
            else:
                want = (value - low) / (high - low) * 2 - 1
                ok = abs(ys[idx] - want) < 1e-6
            case.expect(
                ok, "line-values",
                f"{chan}: {ys[:len(values)][:8]} for {values[:8]} "
                f"(#{idx} of {len(values)})",
            )
        for point, x in zip(points, xs):
            maps.append((float(point[1]), x))

    def axis(self, name, model, maps):
        """All lines have one time axis."""

        case = self.case
        for _, x in maps:
            case.expect(-1.000001 <= x <= 1.000001, "axis-range", f"{x}")
        if not maps:
            return
        first, last = min(maps), max(maps)
        span = last[0] - first[0]
        for when, x in maps:
            want = first[1]
            if span:
                want += (when - first[0]) / span * (last[1] - first[1])
            case.expect(
                abs(x - want) < 1e-6 + 1100 / max(span, 1), "axis",
                f"{name}: {when} at {x} instead of {want}",
            )
        if span:
            case.expect(last[1] > first[1], "axis-order")
        lone = [y for y in model.on.values() if len(y) == 1]
        if model.tight and span and not lone and not any(
            isinstance(p[0], str) for y in model.on.values() for p in y
        ):
            case.expect(
                abs(first[1] + 1) < 1e-6 and abs(last[1] - 1) < 1e-6,
                "axis-bounds", f"{first} {last}",
            )
            case.event("tight")
            if model.visible:
                self.captured(name, span)

    def captured(self, name, span):
        """The displayed amount of time is the time that's drawn."""

        self.time += 0.01
        self.tick()
        self.settle()
        texts = dict(
            x[:2] for x in self.view.op("texts")
        )[f"{name}-overlay"]
        found = [
            re.match(r"\s*(\d+\.\d+)([num ])s \(x-axis", x) for x in texts
        ]
        found = [x for x in found if x]
        self.case.equal(len(found), 1, "captured", str(texts))
        unit = {"n": 1, "u": 1e3, "m": 1e6, " ": 1e9}[found[0].group(2)]
        got = float(found[0].group(1)) * unit
        self.case.expect(
            float(found[0].group(1)) < 1000 or unit == 1e9, "captured",
            found[0].group(0),
        )
        self.case.expect(
            abs(got - span) <= unit * 0.0011 + 2,
            "captured", f"{found[0].group(0)!r} for {span} ns",
        )
        self.case.event("units")

    def began(self, name):
        """A tab was shown."""

        self.shown = name
        self.shown_at = math.inf
        self.case.event("shows")
        if name not in self.plots and self.contexts < 4:
            self.contexts += 1
            self.plots[name] = Plotted()
            self.plots[name].tight = False
            self.plots[name].on = {x: [] for x in self.pending.pop(name)}
        self.settle()
        self.refresh()
        self.shown_at = self.time
        self.stamps[name] = {}
        self.depth()

    def depth(self):
        """How many points are kept (as displayed)."""

        plot = self.plots.get(self.shown)
        if plot is None or not plot.visible:
            return
        texts = {
            x[0]: x[1] for x in self.view.op("texts")
        }[f"{self.shown}-overlay"]
        found = [
            re.match(r"\s*(\d+)\s+\(max samples\)", x) for x in texts
        ]
        found = [int(x.group(1)) for x in found if x]
        self.case.equal(len(found), 1, "max-samples", str(texts))
        self.case.expect(found[0] >= 16, "max-samples", str(found))
        plot.capacity = found[0]

    def tick(self):
        """A frame of the worker's."""
        self.view.op("frame", who="worker", time=self.time)
        if self.sent_at + self.period <= self.time:
            self.sent_at = self.time


def displays(text, want):
    """A cell's text is a value."""
    if isinstance(want, bool):
        return text == ("true" if want else "false")
    if isinstance(want, str):
        return text == want
    try:
        got = float(text)
    except ValueError:
        return False
    if isinstance(want, int):
        return got == float(want)
    return got == want or abs(got - want) <= 0.5001e-5 + abs(want) * 1e-9


# Things users do.


def do_change(case, page):
    item = page.by_name[page.shown]
    for _ in range(case.rng.choice([1, 3, 10])):
        item.change(case.rng)
    if case.rng.random() < 0.3:
        case.rng.choice(page.served).change(case.rng)
    if case.rng.random() < 0.3:
        item = case.rng.choice(page.served)
        for _ in range(case.rng.choice([1, 2, 3])):
            item.logger.info("#again")


def do_stream(case, page):
    """Plotted channels change a lot."""
    plot = page.plots.get(page.shown)
    if not plot or not plot.on:
        return
    item = page.by_name[page.shown]
    for _ in range(case.rng.choice([5, 20, 60, 150])):
        item.change(case.rng, case.rng.choice(list(plot.on)))


def do_tab(case, page, name=None):
    name = name or case.rng.choice(page.served).name
    page.view.op("click", sel=css(f"runtimepy-{name}-tab"))
    if name != page.shown:
        page.began(name)


def do_check(case, page, chan=None):
    name = page.shown
    item = page.by_name[name]
    on = page.checked[name]
    if chan is None:
        if on and case.rng.random() < 0.3:
            chan = case.rng.choice(on)
        else:
            if not item.numeric():
                return
            chan = case.rng.choice(item.numeric())
    page.view.op("click", root=f"runtimepy-{name}", sel=css(f"plot-{chan}"))
    toggled(page, name, chan)


def toggled(page, name, chan):
    """A channel's plot was toggled."""
    on = page.checked[name]
    plot = page.plots.get(name)
    if chan in on:
        on.remove(chan)
        if plot:
            plot.on.pop(chan)
            plot.tight = False
    else:
        on.append(chan)
        if plot:
            plot.on[chan] = []


def do_color(case, page):
    on = page.checked[page.shown]
    if on:
        page.view.op(
            "click", root=f"runtimepy-{page.shown}",
            sel=css(case.rng.choice(on) + "-line-color"),
        )


def notches(case, page, plot, delta, count):
    """Turn the wheel."""
    for _ in range(count):
        page.view.op(
            "dispatch", sel=css(f"{page.shown}-overlay"), type="wheel",
            event={"deltaY": delta, "ctrlKey": False},
        )
        plot.wheeled = True
        plot.tight = False
        page.time += 0.01
        page.tick()
        page.depth()
        for chan in plot.on:
            if len(plot.on[chan]) > plot.capacity:
                case.event("shrunk_buffers")
            plot.on[chan] = plot.on[chan][-plot.capacity:]
        page.settle()
        case.event("wheels")


def do_wheel(case, page):
    plot = page.plots.get(page.shown)
    if not plot or not plot.visible:
        return
    before = plot.capacity
    delta = case.rng.choice([-1, -1, -1, 1]) * case.rng.choice([1, 100])
    notches(case, page, plot, delta, case.rng.choice([1, 1, 3, 12, 65]))
    case.expect(
        plot.capacity == before
        or (plot.capacity > before) == (delta > 0),
        "wheel", f"{before} to {plot.capacity} by {delta}",
    )
    if plot.capacity < 60:
        # (Filling the buffer doesn't take long, a smaller one keeps the
        # newest points.)
        if plot.capacity < 18:
            notches(case, page, plot, 1, case.rng.choice([3, 6]))
        if not plot.on:
            do_check(case, page)
        item = page.by_name[page.shown]
        for chan in case.rng.sample(sorted(plot.on), min(1, len(plot.on))):
            for _ in range(plot.capacity + 20):
                item.change(case.rng, chan)
        page.refresh()
        if case.rng.random() < 0.7:
            notches(case, page, plot, -1, case.rng.choice([1, 2, 5]))


def do_overlay(case, page):
    plot = page.plots.get(page.shown)
    if plot:
        page.view.op("click", sel=css(f"{page.shown}-overlay"))
        plot.visible = not plot.visible
        page.refresh()
        page.depth()


def do_clear(case, page):
    name = page.shown
    root = f"runtimepy-{name}"
    roll = case.rng.random()
    if roll < 0.3:
        page.view.op("click", root=root, sel="#clear-plotted-points")
        page.cleared(name)
    elif roll < 0.5:
        command(page, case.rng.choice(["cls", "clear", " cls "]))
        page.logs[name] = ""
        page.cleared(name)
    elif roll < 0.7:
        page.deliver([{"ui": {name: {"actions": ["clear_points"]}}}])
    else:
        page.view.op("click", root=root, sel="#clear-plotted-channels")
        for chan in list(page.checked[name]):
            toggled(page, name, chan)
        case.event("clears")


def command(page, text):
    """Enter a command."""
    sel = css(f"{page.shown}-command")
    page.view.op("set", sel=sel, prop="value", value=text)
    page.view.op(
        "dispatch", sel=sel, type="keypress", event={"key": "x"},
        target={"sel": sel},
    )
    page.view.op("dispatch", sel=sel, type="keypress",
                 event={"key": "Enter"}, target={"sel": sel})
    page.case.equal(
        page.view.op("get", sel=sel, props=["value"]), [[""]],
        "command-box",
    )


def do_command(case, page):
    item = page.by_name[page.shown]
    page.settle()
    line = c28.commands(case.rng, item.model, case.rng.choice(item.order))
    before = len(item.commands)
    command(page, line)
    page.settle()
    case.equal(item.commands[before:], [line.strip()], "command-sent")
    item.mirror.command(line.strip())
    same(case, item, line)
    case.event("controls")


def same(case, item, what):
    """Both environments are in the same state."""
    for name in item.order:
        got, want = [
            x.env.value(name, resolve_enum=False, scaled=False)
            for x in (item.model, item.twin)
        ]
        spec = item.model.specs[name]
        if spec.is_float and not spec.is_field and spec.scaling:
            # (Commands use scaled values.)
            ok = math.isclose(got, want, rel_tol=1e-5, abs_tol=1e-3)
            c28.put(item.twin, name, got)
        else:
            ok = got == want
        case.expect(
            ok, "effect",
            f"{what} on {item.name}.{name}: {got!r} instead of {want!r}",
        )
    item.adopt()


def do_control(case, page):
    """Operate one of a channel's controls."""

    rng = case.rng
    item = page.by_name[page.shown]
    if not item.controlled():
        return
    chan = rng.choice(item.controlled())
    spec = item.model.specs[chan]
    root = f"runtimepy-{page.shown}"
    page.settle()
    before = len(item.commands)
    row = css(chan, "tr#")

    def found(sel, props=("value",)):
        return page.view.op("get", root=root, sel=f"{row} {sel}",
                            props=list(props))

    choices = []
    for sel in ("select", "button.toggle-value", "input.slider",
                "button.default-button", "input.channel-value-input"):
        if found(sel):
            choices.append(sel)
    case.expect(choices, "no-controls", chan)
    sel = rng.choice(choices)
    full = f"{row} {sel}"
    if sel == "select":
        key = rng.choice(list(item.model.enums[spec.enum]["items"]))
        raw = item.model.enums[spec.enum]["items"][key]
        page.view.op("set", root=root, sel=full, prop="value",
                     value=str(raw))
        page.view.op("dispatch", root=root, sel=full, type="change")
        c28.put(item.twin, chan, raw)
    elif sel == "button.toggle-value":
        page.view.op("click", root=root, sel=full)
        value = not item.twin.get(chan)
        c28.put(item.twin, chan, int(value) if spec.is_field else value)
    elif sel == "button.default-button":
        text = found(sel)[0][0]
        if "e-" in text or text.startswith("-inf"):
            return
        page.view.op("click", root=root, sel=full)
        c28.put(item.twin, chan, spec.default)
    elif sel == "input.slider":
        value = rng.choice([0, 5, 10])
        down, move, up = rng.choice(
            [("mousedown", "mousemove", "mouseup"),
             ("touchstart", "touchmove", "touchend")]
        )
        page.view.op("dispatch", root=root, sel=full, type=down)
        page.view.op("set", root=root, sel=full, prop="value",
                     value=str(value))
        page.view.op("dispatch", document=True, type=move)
        page.view.op("dispatch", document=True, type=up)
        page.settle()
        case.equal(
            item.commands[before:], [f"set {chan} {value}"], "slider-sent"
        )
        page.view.op("dispatch", document=True, type=move)
        item.mirror.command(f"set {chan} {value}")
    else:
        raw = c28.random_raw(rng, spec, infinite=False)
        text = str(raw) if spec.is_field else repr(scale(spec, raw))
        if "e" in text:
            text = "1"
        page.view.op("set", root=root, sel=full, prop="value", value=text)
        if rng.random() < 0.5:
            page.view.op("dispatch", root=root, sel=full, type="keypress",
                         event={"key": "1"})
            page.settle()
            case.equal(item.commands[before:], [], "sent-early")
            page.view.op("dispatch", root=root, sel=full, type="keypress",
                         event={"key": "Enter"})
        else:
            buttons = found("button", ("id", "attr.value", "class.default"
                                       "-button"))
            mine = [
                idx for idx, x in enumerate(buttons)
                if x[0] == chan and not x[2]
            ]
            case.equal(len(mine), 1, "send-button", chan)
            page.view.op("click", root=root, sel=f"{row} button",
                         index=mine[0])
        item.mirror.command(f"set {chan} {text}")
    page.settle()
    case.equal(len(item.commands) - before, 1, "commands", sel)
    same(case, item, f"{sel} of {chan}")
    case.event("controls")
    case.event(f"control_{sel.split('.')[-1]}")


def do_defaults(case, page):
    """Everything's reset."""
    item = page.by_name[page.shown]
    root = f"runtimepy-{page.shown}"
    page.settle()
    found = page.view.op("get", root=root, sel="#set-defaults", props=[])
    texts = page.view.op("get", root=root, sel="button.default-button",
                         props=["id", "value"])
    if not found or any("e-" in y or "inf" in y for _, y in texts):
        return
    page.view.op("click", root=root, sel="#set-defaults")
    for name, spec in item.model.specs.items():
        if (
            spec.default is not None
            and spec.commandable
            and (spec.is_bool or not spec.enum)
            and not name.startswith("-")
        ):
            c28.put(item.twin, name, spec.default)
    page.settle()
    for name in item.order:
        if name.startswith("-"):
            # (Commands take such names for options, except for '-'.)
            c28.put(item.twin, name, item.env.value(
                name, resolve_enum=False, scaled=False))
    same(case, item, "defaults")
    case.event("controls")


def do_custom(case, page):
    item = page.by_name[page.shown]
    if not item.customs:
        return
    root = f"runtimepy-{page.shown}"
    name = case.rng.choice(item.customs)
    page.settle()
    before = len(item.commands)
    page.view.op("set", root=root, sel="#custom-commands", prop="value",
                 value=name)
    page.view.op("click", root=root, sel="#send-custom-commands")
    page.settle()
    case.equal(item.commands[before:], [f"custom {name}"], "custom-sent")
    case.event("controls")


PATTERNS = ["a", "b$", "^[abX]", "0|1", "Z.", "\\.", "nothing", ".*",
            ""]


def keys(case, page, sel, root, pattern):
    """Type a text like browsers do."""

    rng = case.rng
    base = {"root": root} if root else {}
    text = page.view.op("get", sel=sel, props=["value"], **base)[0][0]

    pressed = []

    def key(name, after):
        pressed.append(name)
        page.view.op("dispatch", sel=sel, type="keydown",
                     event={"key": name}, **base)
        if after is not None:
            page.view.op("set", sel=sel, prop="value", value=after, **base)

    if rng.random() < (0.3 if pattern else 0.7):
        # (The page empties the box.)
        key("Enter", None)
        text = ""
        case.equal(
            page.view.op("get", sel=sel, props=["value"], **base), [[""]],
            "filter-box",
        )
    while not pattern.startswith(text):
        text = text[:-1]
        key("Backspace", text)
    for char in pattern[len(text):]:
        if rng.random() < 0.2:
            key(rng.choice(["Shift", "Control", "ArrowLeft", "Tab"]), None)
            case.event("other_keys")
        text += char
        key(char, text)
    if rng.random() < 0.2:
        key("Shift", None)
    if rng.random() < 0.3:
        key("x", text + "x")
        key("Backspace", text)
    case.equal(
        page.view.op("get", sel=sel, props=["value"], **base), [[text]],
        "filter-box",
    )
    case.event("filters")
    return bool(pressed)


def do_filter(case, page):
    rng = case.rng
    pattern = rng.choice(PATTERNS)
    if rng.random() < 0.5:
        def active():
            return page.view.op(
                "get", sel="#runtimepy-tabs button.nav-link.active",
                props=["style.display"],
            )[0][0] != "none"

        before = active()
        if keys(case, page, "#runtimepy-tabs input", None, pattern):
            page.exempt = page.shown
        case.expect(active() or not before, "active-hidden",
                    f"{page.shown} for {pattern!r}")
        page.tab_filter = pattern
    else:
        keys(case, page, "#channel-filter", f"runtimepy-{page.shown}",
             pattern)
        page.filters[page.shown] = pattern
    filtered(case, page)


def filtered(case, page):
    """What's shown of what there is."""

    found = page.view.op(
        "get", sel="#runtimepy-tabs button.nav-link",
        props=["id", "style.display"],
    )
    case.equal(len(found), len(page.served), "nav-buttons")
    for ident, display in found:
        name = ident[len("runtimepy-"): -len("-tab")]
        match = bool(re.search(page.tab_filter, name))
        if match:
            case.expect(display != "none", "tab-filter",
                        f"{name} hidden by {page.tab_filter!r}")
        elif name not in (page.shown, page.exempt):
            case.equal(display, "none", "tab-filter",
                       f"{name} for {page.tab_filter!r}")
    for ident, display in page.view.op(
        "get", sel="button.window-button", props=["id", "style.display"]
    ):
        case.expect(display != "none", "window-button", ident)
    for item in page.served:
        for chan, display in page.view.op(
            "get", root=f"runtimepy-{item.name}", sel="tr.channel-row",
            props=["id", "style.display"],
        ):
            match = bool(re.search(page.filters[item.name], chan))
            case.equal(
                display != "none", match, "channel-filter",
                f"{item.name}.{chan} for {page.filters[item.name]!r}",
            )


def do_setting(case, page):
    """Buttons for the page's looks, and the rate of messages."""
    roll = case.rng.random()
    if roll < 0.2:
        page.view.op("click", sel="#theme-button")
        page.light = not page.light
    elif roll < 0.35:
        page.view.op("click", sel="#tabs-button")
        page.tabs_hidden = not page.tabs_hidden
    elif roll < 0.5:
        page.view.op("click", sel="#channels-button")
        page.channels_hidden = not page.channels_hidden
    else:
        sel = "#setting-min-tx-period-ms"
        value = case.rng.choice([0, 1, 20, 50, 100])
        page.view.op("dispatch", sel=sel, type="mousedown")
        page.view.op("set", sel=sel, prop="value", value=str(value))
        page.view.op("dispatch", document=True, type="mousemove",
                     target={"sel": sel})
        page.view.op("dispatch", document=True, type="mouseup")
        page.period = value
    looks(case, page)


def looks(case, page):
    """The page looks like what was chosen."""

    theme = page.view.op("get", sel="#runtimepy",
                         props=["attr.data-bs-theme"])
    if page.light:
        case.equal(theme, [["light"]], "theme")
    else:
        case.expect(theme[0][0] in (None, "dark"), "theme", str(theme))
    case.equal(
        page.view.op("get", sel="#runtimepy-tabs", props=["class.show"]),
        [[not page.tabs_hidden]], "tabs-shown",
    )
    for shown, in page.view.op("get", sel=".channel-column",
                               props=["class.show"]):
        case.equal(shown, not page.channels_hidden, "channels-shown")
    for display, in page.view.op("get", sel=".vertical-divider",
                                 props=["style.display"]):
        case.equal(display == "none", page.channels_hidden, "divider")
    slider = page.view.op("get", sel="#setting-min-tx-period-ms",
                          props=["value"])
    case.equal(float(slider[0][0]), float(page.period), "slider")
    case.equal(
        page.view.op("get", sel="button.nav-link.active", props=["id"]),
        [[f"runtimepy-{page.shown}-tab"]], "active-tab",
    )
    for item in page.served:
        boxes = page.view.op(
            "get", root=f"runtimepy-{item.name}",
            sel="input.form-check-input", props=["id", "checked"],
        )
        case.equal(
            {x[len("plot-"):] for x, y in boxes if y},
            set(page.checked[item.name]), "checked", item.name,
        )
    status = page.view.op("get", sel="#plot-status-inner",
                          props=["innerHTML"])[0][0]
    case.equal(
        sorted(x for x in status.split("<br>") if x),
        sorted(f"{x}:{z}" for x, y in page.checked.items() for z in y),
        "plot-status",
    )


def do_resize(case, page):
    if page.shown in page.plots:
        size = [case.rng.choice([100, 320, 700, 1200]) for _ in range(2)]
        page.view.op("resize", sel=css(f"{page.shown}-plot"),
                     width=size[0], height=size[1])
        page.tick()
        page.settle()
        plot = [x for x in page.view.op("plots")
                if x["id"] == f"{page.shown}-plot"][0]
        case.equal(plot["size"], size, "plot-size")
        page.drawn()


def do_odd(case, page):
    """Messages that concern nobody, and the server's queries."""
    rng = case.rng
    name = rng.choice(page.served).name
    page.settle()
    if rng.random() < 0.5:
        page.deliver([rng.choice([
            {"ui": {"nope": {"points": {"x": [[1, 2]]}}}},
            {"ui": {name: {"what": 1}}},
            {"ui": {name: {"points": {"nope": [[1, 2]]}}}},
            {"ui": {}},
            {"ui": {name: {"actions": ["dance"]}}},
        ])])
        return
    query = rng.choice([
        {"loopback": {"a": [1, "é"]}}, {"__id__": rng.randint(0, 99)},
        {"loopback": 5, "__id__": 0}, {"what": 2, "__id__": 7},
        {"loopback": None}, {"nothing": 1},
    ])
    page.view.receive(page.json, frame(query))
    sent = [json.loads(x[4:]) for x, _ in page.view.take(page.json)]
    want = {x: query[x] for x in ("loopback", "__id__") if x in query}
    case.equal(sent, [want] if want else [], "echo", str(query))
    case.event("echoes")


def do_reload(case, page):
    """The address restores the page."""

    rng = case.rng
    if rng.random() < 0.2:
        if not page.channels_hidden:
            page.view.op("click", sel="#channels-button")
            page.channels_hidden = True
        if not page.tabs_hidden:
            page.view.op("click", sel="#tabs-button")
            page.tabs_hidden = True
    link = page.view.op("location").lstrip("#")
    page.settle()
    page.close()
    if rng.random() < 0.25:
        # Someone else's link.
        link += rng.choice(
            ["/nope:a,b", "/nope:filter=x", f"/{page.shown}:nope", "/",
             "/nope"]
        )
        case.event("odd_links")
    resume(case, page, link)
    case.event("reloads")


def resume(case, page, link):
    """A page that's loaded from a link."""
    page.exempt = page.served[0].name
    shown = page.shown
    page.load(link)
    page.began_load(shown)
    page.view.op("frame", who="main", time=page.time)
    looks(case, page)
    filtered(case, page)
    page.refresh()
    if page.period:
        page.refresh(page.period * 0.4)


def do_window(case, page):
    """A tab in a new window."""

    rng = case.rng
    name = rng.choice(page.served).name
    if page.tabs_hidden:
        return
    page.view.other.clear()
    found = page.view.op("get", sel="button.window-button", props=["id"])
    index = [x[0] for x in found].index(name)
    page.view.op("click", sel="button.window-button", index=index)
    opened = [x for kind, x in page.view.other if kind == "open"]
    case.equal(len(opened), 1, "opened")
    base, _, link = opened[0][0].partition("#")
    case.equal(base, "http://localhost:8000/index.html", "opened-page")
    # This window isn't affected.
    looks(case, page)
    case.event("links")
    if rng.random() < 0.5:
        page.settle()
        page.close()
        page.shown = name
        page.tabs_hidden = True
        resume(case, page, link)


ACTIONS = [
    (do_change, 8), (do_stream, 5), (do_tab, 4), (do_check, 5),
    (do_color, 1), (do_wheel, 2), (do_overlay, 1), (do_clear, 2),
    (do_command, 3), (do_control, 6), (do_defaults, 1), (do_custom, 1),
    (do_filter, 2), (do_setting, 2), (do_resize, 1), (do_odd, 2),
    (do_reload, 1), (do_window, 1),
]


def began_load(self, shown):
    """The page's first tab is shown, then the one in its address."""

    first = self.served[0].name
    self.settle()
    self.shown = first
    self.contexts = 1
    self.plots[first] = plot = Plotted()
    plot.tight = False
    plot.on = {x: [] for x in self.pending.pop(first)}
    if shown == first:
        self.began(first)
        return
    plot.capacity = 1 << 30
    self.began(shown)


Session.began_load = began_load


def use(case):
    """Someone uses the page."""

    rng = case.rng
    ChannelEnvironmentTab.all_tabs.clear()
    pool = ["alpha", "a-b", "a-c", "t.1", "2nd", "udp_json_client", "b",
            "X0-Z", "tab-1", "tab-2"]
    labels = rng.sample(pool, rng.choice([1, 2, 2, 3, 3, 6]))
    served = [Served(case, x) for x in labels]
    app = App({x.name: Task(x.proc) for x in served})
    html = get_html()
    WebApplication(app).populate(
        html, lambda tabs: channel_environments(app, tabs)
    )
    for item in served:
        item.tab = ChannelEnvironmentTab.all_tabs[item.name]
    tree = browser.parse(html.encode_str())
    config, urls = settings(rng)
    with browser.Browser(case) as view:
        page = Session(case, view, served, tree, urls | {
            "json_data": config})
        done = []
        try:
            page.load()
            page.began_load(page.shown)
            looks(case, page)
            if len(served) > 4:
                for item in rng.sample(served, len(served)):
                    do_tab(case, page, item.name)
            weights = [x[1] for x in ACTIONS]
            for _ in range(rng.randint(10, 60 if case.thorough else 30)):
                action = rng.choices(ACTIONS, weights)[0][0]
                done.append(action.__name__)
                case.note(action.__name__)
                action(case, page)
                if rng.random() < 0.8:
                    if page.period and rng.random() < 0.4:
                        page.refresh(page.period * 0.4)
                    page.refresh()
            looks(case, page)
            filtered(case, page)
        finally:
            page.close()
            ChannelEnvironmentTab.all_tabs.clear()
    case.distinct(labels, done)
    case.sample(f"{labels}: {' '.join(done)}")


def settings(rng):
    """The served configuration."""

    host = rng.choice(["localhost", "other.example"])
    ports = [
        {"name": "runtimepy_http_server", "port": 8000},
        {"name": "runtimepy_websocket_server", "port": 8001},
        {"name": "runtimepy_websocket_data_server", "port": 8002},
        {"name": "runtimepy_secure_websocket_server", "port": 8003},
        {"name": "other", "port": 8005},
    ]
    rng.shuffle(ports)
    config = {"ports": ports}
    name = host
    if rng.random() < 0.3:
        config["websocket_hostname"] = name = "elsewhere"
    return {"config": config}, {
        "hostname": host,
        "json": f"ws://{name}:8001",
        "data": f"ws://{name}:8002",
    }


KINDS = {
    "use": (use, 240, 4000),
}
