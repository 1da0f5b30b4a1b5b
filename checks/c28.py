"""C28: the web UI's data stream reflects channel state per open tab."""

import asyncio
import gc
from html.parser import HTMLParser
import json
import logging
import math
import time

from lib import envs, nets, vloop
import websockets

from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.net.html.bootstrap.tabs import TabbedContent
from runtimepy.net.server import struct as ui_struct
from runtimepy.net.server.struct import UiState
from runtimepy.net.server.websocket import RuntimepyWebsocketConnection
from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
from svgen.element.html import div

PROPERTY = "C28"
RULE = (
    "random show/hide/command/frame/log histories of 1-4 browser-like "
    "websocket clients over 1-3 tabs while channels change, every received "
    "value and point compared with the recorded change history; rendered "
    "pages whose every control is operated; non-trivial = distinct history"
)
REQUIRED = {"points": 3000, "infinite": 25, "shows": 300, "reshows": 60,
            "hides": 100, "frames": 800, "commands": 200, "disconnects": 100,
            "aborts": 20, "logs": 200, "tabs_hidden": 100, "ui_times": 60,
            "repeated_shows": 15, "page_rows": 1500, "page_toggles": 100,
            "page_options": 300, "page_defaults": 60, "page_inputs": 200,
            "page_readonly": 300, "page_custom": 20, "page_sliders": 30}
ROOT = logging.getLogger("verif.c28")
ROOT.propagate = False


def make_logger(name):
    """A logger nobody else uses."""
    log = logging.Logger(name, logging.DEBUG)
    log.propagate = False
    return log


def usable(spec, raw, infinite):
    """NaN isn't shown, by design."""
    if not spec.is_float or spec.is_field:
        return True
    test = (lambda x: not math.isnan(x)) if infinite else math.isfinite
    return test(raw) and test(envs.scale(spec, raw))


def finite(model, infinite):
    """Keep every value one that's shown."""
    for name, spec in model.specs.items():
        if not usable(spec, model.get(name), infinite):
            model.put(name, 0.25)
    envs.sync(model)


def random_raw(rng, spec, infinite=True):
    while True:
        raw = envs.random_raw(rng, spec)
        if (
            infinite
            and spec.is_float
            and not spec.is_field
            and rng.random() < 0.2
        ):
            raw = rng.choice([math.inf, -math.inf])
        if usable(spec, raw, infinite):
            return raw


def seen(value):
    """How a value gets to a browser (JSON can't represent infinity)."""
    if isinstance(value, float) and not math.isfinite(value):
        return str(value)
    return value


def not_json(text):
    """Browsers refuse the whole message."""
    raise ValueError(f"'{text}' isn't valid JSON")


def parse(case, raw):
    """Read a message like browsers do."""
    try:
        return json.loads(raw, parse_constant=not_json)
    except ValueError as exc:
        case.fail("invalid-json", f"{exc}: {raw[:200]}")


def build(case, infinite=True, **kwargs):
    """An environment (with plain descriptions) and its exact twin."""

    state = case.rng.getstate()
    out = []
    for _ in range(2):
        case.rng.setstate(state)
        model = envs.build(case, **kwargs)
        envs.randomize(case, model)
        finite(model, infinite)
        out.append(model)
    return out


def commands(rng, model, name):
    """A random command line for one item."""

    spec = model.specs[name]
    items = model.enums[spec.enum]["items"] if spec.enum else None
    roll = rng.random()
    if roll < 0.1:
        return f"set {name} bogus"
    if roll < 0.15:
        return rng.choice(["toggle", "set nope 1", "x", "", "get " + name])
    if spec.is_bool or (spec.is_field and spec.width == 1):
        if roll < 0.7:
            return f"toggle {name}"
        return f"set {name} " + rng.choice(["true", "false"])
    if items:
        key = rng.choice(list(items))
        return f"set {name} {rng.choice([key, items[key]])}"
    raw = random_raw(rng, spec)
    if spec.is_field:
        return f"set {name} {raw}"
    text = repr(envs.scale(spec, raw))
    flag = rng.choice(["", "", " -f"])
    if "e" in text:
        text = "1"
    return f"set {name} {text}{flag}"


class Tab:
    """One tab of the server."""

    def __init__(self, case, name, content, reserve=0.3):
        rng = case.rng
        self.name = name
        self.model, self.twin = build(case, size=10)
        self.env = self.model.env
        self.logger = make_logger(f"tab.{name}")
        self.proc = ChannelCommandProcessor(self.env, self.logger)
        self.mirror = ChannelCommandProcessor(
            self.twin.env, make_logger(f"twin.{name}")
        )
        self.tab = ChannelEnvironmentTab(name, self.proc, None, content)
        self.history = {}
        self.logged = []

        # Items that only commands change (all fields of a word together).
        prims = {}
        for item in self.model.order:
            prims.setdefault(
                id(envs.primitive(self.model, item)), []
            ).append(item)
        self.reserved, self.free = [], []
        for group in prims.values():
            (self.reserved if rng.random() < reserve else self.free).extend(
                group
            )
        self.hooks = []

    def record(self):
        """Record every change, independently of the server."""

        for name in self.model.order:
            prim = envs.primitive(self.model, name)
            self.history[name] = [seen(self.env.value(name))]

            def changed(_, __, name=name, prim=prim):
                self.history[name].append(
                    (seen(self.env.value(name)), prim.last_updated_ns)
                )

            self.hooks.append((prim, prim.register_callback(changed)))

    def counts(self):
        return {x: len(y) for x, y in self.history.items()}

    def at(self, name, count):
        """The value after some number of recorded entries."""
        item = self.history[name][count - 1]
        return item[0] if isinstance(item, tuple) else item

    def listeners(self):
        """How many observers the tab's items and logger have."""
        total = len(self.logger.handlers)
        seen = set()
        for name in self.model.order:
            prim = envs.primitive(self.model, name)
            if id(prim) not in seen:
                seen.add(id(prim))
                total += len(getattr(prim, "callbacks", ()))
        return total

    def change(self, rng):
        """Change a random item."""
        if not self.free:
            return
        name = rng.choice(self.free)
        spec = self.model.specs[name]
        raw = random_raw(rng, spec)
        if spec.is_field:
            self.model.put(name, raw)
            spec.prim.value = self.model.words[spec.group]
        else:
            self.env.set(name, raw, scaled=False)


class Client:
    """A browser-like client with an oracle for everything it's sent."""

    def __init__(self, case, world, sock, ident):
        self.case = case
        self.world = world
        self.sock = sock
        self.ident = ident
        self.marks = 0
        self.data = b""
        self.time = 0
        self.previous = 0
        self.view = {x.name: {} for x in world.tabs}
        self.shown = {x.name: None for x in world.tabs}
        self.ever = set()
        self.logs = {x.name: [] for x in world.tabs}
        self.inited = {}

    async def send(self, message):
        raw = json.dumps(message).encode()
        await self.sock.send(len(raw).to_bytes(4, "big") + raw)

    async def receive(self):
        """The next message (as browsers take them off the stream)."""
        while True:
            if len(self.data) >= 4:
                end = 4 + int.from_bytes(self.data[:4], "big")
                if len(self.data) >= end:
                    raw = self.data[4:end]
                    self.data = self.data[end:]
                    return raw.decode()
            self.case.equal(self.data, b"", "partial-message")
            self.data += await asyncio.wait_for(self.sock.recv(), 30.0)

    async def exchange(self, message):
        """Send a message; collect everything received up to its end."""

        self.marks += 1
        await self.send(message)
        await self.send({"loopback": {"n": self.marks}})
        out = []
        while True:
            raw = await self.receive()
            data = parse(self.case, raw)
            self.case.expect(isinstance(data, dict), "message", raw[:200])
            if data.get("loopback", {}).get("n") == self.marks:
                rest = {x for x in data if x != "__id__"}
                self.case.equal(rest, {"loopback"}, "mixed-reply")
                return out
            if "ui" not in data:
                # Queries of the server are answered like browsers do.
                await self.send(
                    {x: data[x] for x in ("loopback", "__id__") if x in data}
                )
                continue
            case_keys = set(data) - {"__id__", "ui"}
            self.case.expect(
                not case_keys, "message-keys", f"{raw[:200]}"
            )
            out.append(data.get("ui", {}))

    def known(self, out, allowed):
        """Only tabs that have something to say are in a reply."""
        for ui in out:
            self.case.expect(
                set(ui) <= set(allowed),
                "foreign-tab",
                f"reply for {sorted(ui)} instead of {sorted(allowed)}",
            )

    async def event(self, tab, kind, **extra):
        return await self.exchange(
            {"ui": {"name": tab.name, "event": {"kind": kind, **extra}}}
        )

    async def init(self, tab):
        if tab.name not in self.inited:
            low = len(tab.logged)
            out = await self.event(tab, "init")
            self.inited[tab.name] = (low, len(tab.logged))
        else:
            out = await self.event(tab, "init")
        self.known(out, [])

    def values(self, tab, out, low, high):
        """Apply the values a tab was sent."""
        for ui in out:
            for name, value in ui.get(tab.name, {}).items():
                if name == "handle_shown_state":
                    continue
                self.case.expect(
                    name in tab.history, "foreign-channel", name
                )
                self.case.expect(
                    any(
                        tab.at(name, i) == value
                        for i in range(low[name], high[name] + 1)
                    ),
                    "value",
                    f"{tab.name}.{name}: sent {value!r}, but the value was "
                    f"{tab.at(name, low[name])!r}",
                )
                self.view[tab.name][name] = value
                self.case.event("values")

    async def show(self, tab):
        case = self.case
        low = tab.counts()
        out = await self.event(tab, "tab.shown")
        high = tab.counts()
        self.known(out, [tab.name])
        states = [
            ui[tab.name]["handle_shown_state"]
            for ui in out
            if "handle_shown_state" in ui.get(tab.name, {})
        ]
        case.equal(states, [True], "shown-reply")
        self.values(tab, out, low, high)
        case.event("shows")
        if self.shown[tab.name] is not None:
            case.event("repeated_shows")
            return
        if tab.name in self.ever:
            case.event("reshows")
        self.ever.add(tab.name)
        view = self.view[tab.name]
        for name in tab.model.order:
            case.expect(name in view, "missing-value", f"{tab.name}.{name}")
            case.expect(
                any(
                    tab.at(name, i) == view[name]
                    for i in range(low[name], high[name] + 1)
                ),
                "stale-after-show",
                f"{tab.name}.{name} shows {view[name]!r}, is "
                f"{tab.at(name, high[name])!r}",
            )
        case.equal(
            set(view), set(tab.model.order), "shown-channels", tab.name
        )
        self.shown[tab.name] = {
            "low": low, "high": high,
            "points": {x: [] for x in tab.model.order},
        }

    async def hide(self, tab):
        out = await self.event(tab, "tab.hidden")
        self.known(out, [tab.name])
        for ui in out:
            self.case.equal(
                ui.get(tab.name), {"handle_shown_state": False},
                "hidden-reply",
            )
        self.shown[tab.name] = None
        self.case.event("hides")

    async def frame(self, step=None):
        """An animation frame."""

        case = self.case
        self.previous = self.time
        self.time = self.world.next_time()
        self.world.times.append((self.time, self.time - self.previous))
        low = {x.name: x.counts() for x in self.world.tabs}
        out = await self.exchange({"ui": {"time": self.time}})
        high = {x.name: x.counts() for x in self.world.tabs}
        case.event("frames")
        case.expect(len(out) <= 1, "frame-replies", str(len(out)))
        for ui in out:
            for key, data in ui.items():
                case.expect(key in self.view, "foreign-tab", key)
                case.expect(
                    set(data) <= {"points", "log_messages"},
                    "frame-keys", str(list(data)),
                )
                tab = self.world.by_name[key]
                self.logs[key].extend(data.get("log_messages", []))
                if "log_messages" in data:
                    case.expect(
                        key in self.inited, "uninvited-logs", key
                    )
                if "points" in data:
                    state = self.shown[key]
                    case.expect(
                        state is not None, "points-while-hidden", key
                    )
                    for name, points in data["points"].items():
                        case.expect(
                            name in tab.history, "foreign-channel", name
                        )
                        case.expect(points, "empty-points", name)
                        state["points"][name].extend(
                            (x[0], x[1]) for x in points
                        )
                        self.view[key][name] = points[-1][0]
                        case.event("points", len(points))
                        case.event(
                            "infinite",
                            sum(x[0] in ("inf", "-inf") for x in points),
                        )
        for tab in self.world.tabs:
            if self.shown[tab.name] is not None:
                self.check(tab, low[tab.name], high[tab.name])
            else:
                case.event("tabs_hidden")

    def check(self, tab, low, high):
        """The points so far are exactly the changes since 'show'."""

        case = self.case
        state = self.shown[tab.name]
        for name in tab.model.order:
            got = state["points"][name]
            history = tab.history[name]
            for start in range(state["low"][name], state["high"][name] + 1):
                end = start + len(got)
                if (
                    low[name] <= end <= high[name]
                    and history[start:end] == got
                ):
                    # Narrow the show instant down.
                    break
            else:
                want = history[state["low"][name] : high[name]]
                case.fail(
                    "points",
                    f"client {self.ident} {tab.name}.{name}: got "
                    f"{len(got)} points {got[-4:]}, changes since it was "
                    f"shown: {len(want)} {want[-4:]}",
                )

    async def command(self, tab):
        """A command has the effect of the local command."""

        case = self.case
        rng = case.rng
        if not tab.reserved:
            return
        name = rng.choice(tab.reserved)
        line = commands(rng, tab.model, name)
        async with self.world.lock:
            out = await self.event(tab, "command", value=line)
            want = tab.mirror.command(line)
            case.event("commands")
            case.event("accepted" if want else "refused")
            for item in tab.reserved:
                case.equal(
                    tab.env.value(item),
                    tab.twin.env.value(item),
                    "command-effect",
                    f"{line!r} on {tab.name}.{item}",
                )
        self.known(out, [])
        tab.results = getattr(tab, "results", {})
        tab.results.setdefault(line, set()).add(f"{line}: {want}")

    async def odd(self, tab):
        """Messages that don't concern any tab."""
        rng = self.case.rng
        out = await self.exchange(
            rng.choice(
                [
                    {"ui": {"name": "nope", "event": {"kind": "init"}}},
                    {"ui": {"name": "nope", "event": {"kind": "tab.shown"}}},
                    {"ui": {"name": tab.name, "event": {"kind": "what"}}},
                    {"ui": {}},
                ]
            )
        )
        self.known(out, [])


class World:
    """The server's state."""

    def __init__(self):
        self.tabs = []
        self.by_name = {}
        self.times = []
        self.clock = 100
        self.lock = asyncio.Lock()
        self.open = 0

    def next_time(self):
        self.clock += 3
        return self.clock


class App:
    """Enough of an application for the UI's own structure."""


async def session(case, world, port, index, long):
    """One client's life."""

    rng = case.rng
    sock = await websockets.connect(f"ws://127.0.0.1:{port}")
    world.open += 1
    client = Client(case, world, sock, index)
    world.clients.append(client)
    try:
        # Connections are counted once they're processed.
        await client.exchange({"ui": {}})
        for tab in world.tabs:
            if rng.random() < 0.5:
                await client.init(tab)
        count = rng.randint(8, 30 if long else 20)
        for _ in range(count):
            tab = rng.choice(world.tabs)
            roll = rng.random()
            if roll < 0.2:
                if client.shown[tab.name] is None or rng.random() < 0.3:
                    await client.show(tab)
                else:
                    await client.hide(tab)
            elif roll < 0.25:
                await client.hide(tab)
            elif roll < 0.33:
                await client.init(tab)
            elif roll < 0.45:
                await client.command(tab)
            elif roll < 0.48:
                await client.odd(tab)
            elif roll < 0.56:
                await asyncio.sleep(rng.choice([0, 0.001, 0.01]))
            else:
                await client.frame()
        # In the end, what's shown is what is.
        if rng.random() < 0.7:
            async with world.quiet:
                for tab in world.tabs:
                    if client.shown[tab.name] is None and rng.random() < 0.4:
                        await client.show(tab)
                await client.frame()
                for tab in world.tabs:
                    if client.shown[tab.name] is None:
                        continue
                    want = {x: seen(y) for x, y in tab.env.values().items()}
                    for name in tab.reserved:
                        want.pop(name)
                    got = {
                        x: y
                        for x, y in client.view[tab.name].items()
                        if x not in tab.reserved
                    }
                    case.equal(got, want, "view", f"tab {tab.name}")
                    case.event("views")
        async with world.quiet:
            await client.frame()
            ends = {x.name: len(x.logged) for x in world.tabs}
        check_logs(case, world, client, ends)
        if rng.random() < 0.4:
            # Stay around, then frame again (someone else may have left).
            await asyncio.sleep(rng.choice([0.002, 0.02]))
            await client.frame()
    finally:
        world.clients.remove(client)
        world.open -= 1
        if rng.random() < 0.3:
            sock.transport.abort()
            case.event("aborts")
        else:
            await sock.close()
        case.event("disconnects")


def check_logs(case, world, client, ends):
    """Log messages arrive once, in order, for tabs that asked for them."""

    for tab in world.tabs:
        got = [x for x in client.logs[tab.name] if "#mark " in x]
        got = [int(x.split("#mark ")[1].split()[0]) for x in got]
        if tab.name not in client.inited:
            case.equal(got, [], "uninvited-logs")
            continue
        low, high = client.inited[tab.name]
        end = ends[tab.name]
        case.event("logs", len(got))
        case.expect(
            any(got == tab.logged[i:end] for i in range(low, high + 1)),
            "logs",
            f"client {client.ident} tab {tab.name}: got {got[-8:]}, logged "
            f"{tab.logged[low:end][-8:]}",
        )
        for text in client.logs[tab.name]:
            for line, results in getattr(tab, "results", {}).items():
                if text.startswith(f"{line}: ") and line:
                    case.expect(
                        any(text.startswith(x) for x in results),
                        "command-result",
                        f"{text!r} instead of {results}",
                    )
                    case.event("results")


async def changer(case, world, stop):
    """Change channels and log messages."""

    rng = case.rng
    mark = 0
    while not stop.is_set():
        async with world.quiet:
            for _ in range(rng.choice([1, 2, 5])):
                tab = rng.choice(world.tabs)
                if rng.random() < 0.3:
                    mark += 1
                    tab.logger.info("#mark %d here", mark)
                    tab.logged.append(mark)
                else:
                    tab.change(rng)
        await asyncio.sleep(rng.choice([0, 0, 0, 0.0005, 0.002]))


async def stream(case, long=False):
    """Several clients of one server."""

    rng = case.rng
    world = World()
    world.quiet = asyncio.Lock()
    world.clients = []
    ChannelEnvironmentTab.all_tabs.clear()
    body = div()
    content = TabbedContent("app", body)
    for name in rng.sample(["a", "b.c", "udp_x", "tab-2"],
                           rng.randint(1, 3)):
        tab = Tab(case, name, content)
        world.tabs.append(tab)
        world.by_name[name] = tab
        tab.record()
        # A channel that changed while nobody listened.
        tab.change(rng)
    base = {x.name: x.listeners() for x in world.tabs}

    ui = None
    if rng.random() < 0.8:
        ui = UiState("ui", {"psutil": False})
        await ui.build(App())
        ui.env.finalize()
        number = ui.env["num_connections"][0].raw
        ui_base = len(getattr(number, "callbacks", ()))

    stop = asyncio.Event()
    clients = rng.randint(1, 4)
    case.note(f"tabs {[x.name for x in world.tabs]} clients {clients}")
    async with RuntimepyWebsocketConnection.serve(
        host="127.0.0.1", port=0
    ) as server:
        port = server.sockets[0].getsockname()[1]
        job = asyncio.create_task(changer(case, world, stop))
        tasks = []
        for i in range(clients):
            tasks.append(
                asyncio.create_task(session(case, world, port, i, long))
            )
            if rng.random() < 0.4:
                await asyncio.sleep(rng.choice([0.001, 0.01, 0.05]))
        try:
            await asyncio.gather(*tasks)
        finally:
            stop.set()
            for task in tasks:
                task.cancel()
            await job
            await asyncio.gather(*tasks, return_exceptions=True)

        # Nothing remains of clients that left.
        def clean():
            return all(
                x.listeners() == base[x.name] for x in world.tabs
            ) and (ui is None or number.value == 0)

        await nets.settle(clean)
        for tab in world.tabs:
            case.equal(
                tab.listeners(), base[tab.name], "listeners",
                f"observers of tab {tab.name} after every client left",
            )
        if ui is not None:
            case.equal(number.value, 0, "num-connections")
            case.equal(
                len(getattr(number, "callbacks", ())), ui_base,
                "ui-listeners",
                "observers of the number of connections",
            )
        if ui is not None:
            await generations(case, world, ui, port)
    case.distinct(*case.trace, len(world.times))
    case.sample(" ; ".join(case.trace[-3:]) + f" {len(world.times)} frames")


async def generations(case, world, ui, port):
    """Clients come and go; the UI's clock follows whoever is left."""

    rng = case.rng
    pool = []
    number = ui.env["num_connections"][0].raw
    for _ in range(rng.randint(3, 8)):
        if len(pool) < 2 or (len(pool) < 4 and rng.random() < 0.5):
            sock = await websockets.connect(f"ws://127.0.0.1:{port}")
            client = Client(case, world, sock, "g")
            pool.append(client)
            await client.exchange({"ui": {}})
        else:
            client = pool.pop(rng.randrange(len(pool)))
            await client.sock.close()
        for _ in range(400):
            # (Browsers always answer the server's queries.)
            for client in pool:
                await client.exchange({"ui": {}})
            if number.value == len(pool):
                break
            await asyncio.sleep(0.0005)
        case.equal(number.value, len(pool), "num-connections", "open")
        # Leave the limiter's interval in real time.
        time.sleep(0.0045)
        world.times.clear()
        for client in rng.sample(pool, len(pool)):
            await client.frame()
        if pool:
            got = (
                round(ui.env.value("time_ms")),
                round(ui.env.value("frame_period_ms")),
            )
            case.expect(
                got in world.times,
                "ui-time",
                f"UI time and period {got}, frames of {len(pool)} clients: "
                f"{world.times}",
            )
            case.event("ui_times")
    for client in pool:
        await client.sock.close()
    await nets.settle(lambda: number.value == 0)
    case.equal(number.value, 0, "num-connections", "closed")


def streams(case):
    """Entry."""
    errors = []
    try:
        vloop.run(stream(case), errors=errors, grace=0.0003, limit=300.0)
    finally:
        ChannelEnvironmentTab.all_tabs.clear()
        ui_struct.UI = None
        gc.collect(0)
    for item in errors:
        if item.get("exception") is not None:
            raise item["exception"]


class Page(HTMLParser):
    """A rendered page as (depth, tag, attributes) with row grouping."""

    VOID = {"input", "br", "img", "link", "meta", "hr"}

    def __init__(self):
        super().__init__()
        self.rows = []
        self.row = None
        self.stack = []
        self.others = []

    def handle_starttag(self, tag, attrs):
        attrs = dict(attrs)
        item = {"tag": tag, "attrs": attrs, "text": "",
                "classes": (attrs.get("class") or "").split()}
        if tag == "tr" and "channel-row" in item["classes"]:
            self.row = {"id": attrs.get("id"), "items": []}
            self.rows.append(self.row)
        elif self.row is not None:
            self.row["items"].append(item)
        else:
            self.others.append(item)
        if tag not in self.VOID:
            self.stack.append(item)

    def handle_data(self, data):
        for item in self.stack[-1:]:
            item["text"] += data.strip()

    def handle_endtag(self, tag):
        while self.stack:
            item = self.stack.pop()
            if item["tag"] == tag:
                break
        if tag == "tr":
            self.row = None


def pages(case):
    """A tab's page and the effect of its controls."""

    rng = case.rng
    ChannelEnvironmentTab.all_tabs.clear()
    model, twin = build(case, infinite=False)
    env = model.env
    for item in (model, twin):
        for spec in item.specs.values():
            # Free text is rendered as it is.
            spec.description = None
            if not spec.is_field:
                spec.chan.description = None
    proc = ChannelCommandProcessor(env, make_logger("page"))
    mirror = ChannelCommandProcessor(twin.env, make_logger("mirror"))
    calls = []
    customs = rng.sample(["reload_all", "zap", "custom_b"], rng.randint(0, 3))
    for name in customs:
        async def custom(args, chan, name=name):
            calls.append(name)
        custom.__name__ = name
        proc.register_custom_commands(custom)
    body = div()
    content = TabbedContent("app", body)
    tab = ChannelEnvironmentTab("page", proc, None, content)
    case.expect(
        ChannelEnvironmentTab.all_tabs.get("page") is tab, "registered"
    )
    initial = {x: model.get(x) for x in model.order}
    page = Page()
    page.feed(str(body.encode_str() if hasattr(body, "encode_str") else body))

    # One row per item.
    case.equal(
        [x["id"] for x in page.rows], list(env.names), "rows",
        "rows of the channel table",
    )
    fixed = [
        x for x in page.others
        if x["tag"] == "option" and x["attrs"].get("value") in customs
    ]
    case.equal(
        sorted(x["attrs"]["value"] for x in fixed), sorted(customs),
        "custom-options",
    )
    case.event("page_custom", len(customs))
    for row in page.rows:
        case.event("page_rows")
        operate(case, model, twin, proc, mirror, row, initial)
    case.distinct(*[x["id"] for x in page.rows])
    case.sample(" ".join(x["id"] for x in page.rows)[:100])
    ChannelEnvironmentTab.all_tabs.clear()


def click(case, model, twin, proc, mirror, line, expected):
    """Operate a control; both environments end up the same."""

    result = proc.command(line)
    case.expect(result.success, "control-refused", f"{line!r}: {result}")
    expected()
    del mirror
    for name in model.order:
        got = model.env.value(name, resolve_enum=False, scaled=False)
        want = twin.env.value(name, resolve_enum=False, scaled=False)
        spec = model.specs[name]
        if spec.is_float and not spec.is_field:
            ok = math.isclose(got, want, rel_tol=1e-5, abs_tol=1e-3)
        else:
            ok = got == want
        case.expect(
            ok, "control-effect",
            f"{line!r}: {name} is {got!r} instead of {want!r}",
        )


def operate(case, model, twin, proc, mirror, row, initial):
    """Operate every control of a row."""

    rng = case.rng
    name = row["id"]
    spec = model.specs[name]
    items = row["items"]
    mine = [x for x in items if x["attrs"].get("id") == name]
    toggles = [x for x in mine if "toggle-value" in x["classes"]]
    selects = [x for x in mine if x["tag"] == "select"]
    defaults = [x for x in mine if "default-button" in x["classes"]]
    inputs = [x for x in mine if "channel-value-input" in x["classes"]]
    sliders = [x for x in mine if "slider" in x["classes"]]
    case.equal(
        len([x for x in items if x["tag"] == "input"
             and x["attrs"].get("id") == f"plot-{name}"]),
        1, "plot-box",
    )
    case.equal(
        len([x for x in items if "channel-value" in x["classes"]]), 1,
        "value-cell",
    )
    if name.startswith("-"):
        # (Commands take such names for options.)
        return
    if not spec.commandable:
        case.event("page_readonly")
        case.equal(mine, [], "control-of-readonly", name)
        return
    boolean = spec.is_bool or (spec.is_field and spec.width == 1)
    case.equal(
        (len(toggles), len(selects), len(inputs)),
        (
            int(boolean),
            int(not boolean and bool(spec.enum)),
            int(not boolean and not spec.enum),
        ),
        "controls",
        f"toggles, selections and inputs of {name}",
    )
    # Change something else first, so a default isn't trivially there.
    fresh = random_raw(rng, spec, infinite=False)
    for item in (model, twin):
        put(item, name, fresh)
    if toggles:
        want = not bool(model.get(name))

        def flip():
            put(twin, name, int(want) if spec.is_field else want)

        click(case, model, twin, proc, mirror, f"toggle {name}", flip)
        put(model, name, int(want) if spec.is_field else want)
        case.event("page_toggles")
    for _ in selects:
        options = [x for x in items if x["tag"] == "option"]
        enum = model.enums[spec.enum]["items"]
        case.equal(
            sorted(x["text"] for x in options), sorted(enum), "options", name
        )
        case.equal(
            [x["text"] for x in options if "selected" in x["attrs"]],
            [x for x, y in enum.items() if y == initial[name]],
            "selected", name,
        )
        for opt in options:
            raw = enum[opt["text"]]

            def choose(raw=raw):
                put(twin, name, raw)

            click(
                case, model, twin, proc, mirror,
                f"set {name} {opt['attrs']['value']}", choose,
            )
            case.equal(model.env.value(name), opt["text"], "option-effect")
            put(model, name, raw)
            case.event("page_options")
    for _ in inputs:
        raw = random_raw(rng, spec, infinite=False)
        text = str(raw) if spec.is_field else repr(envs.scale(spec, raw))
        if "e" not in text:
            def enter():
                put(twin, name, raw)

            click(case, model, twin, proc, mirror, f"set {name} {text}",
                  enter)
            put(model, name, raw)
            case.event("page_inputs")
    if not spec.is_field and (boolean or not spec.enum):
        case.equal(
            len(defaults), int(spec.default is not None), "default-button",
            name,
        )
    for button in defaults:
        value = button["attrs"].get("value")
        if value is not None and "e" in value.lower().replace(
            "false", ""
        ).replace("true", ""):
            continue

        def reset():
            put(twin, name, spec.default)

        click(case, model, twin, proc, mirror, f"set {name} {value}", reset)
        put(model, name, spec.default)
        case.event("page_defaults")
        if spec.scaling:
            case.event("page_scaled_defaults")
    if spec.controls and not spec.is_field and inputs:
        case.equal(len(sliders), 1, "slider", name)
        ctl = spec.controls["slider"]
        attrs = sliders[0]["attrs"]
        case.equal(
            (float(attrs["min"]), float(attrs["max"])),
            (float(ctl["min"]), float(ctl["max"])),
            "slider-range",
        )
        case.event("page_sliders")


def put(model, name, raw):
    """Store a raw value."""
    spec = model.specs[name]
    model.put(name, raw)
    if spec.is_field:
        spec.prim.value = model.words[spec.group]
    else:
        model.env.set(name, raw, scaled=False)


KINDS = {
    "stream": (streams, 130, 2500),
    "page": (pages, 220, 3000),
}
