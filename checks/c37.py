"""C37: a configured application can be reached and used as a whole."""

import asyncio
import json
import logging
import os

from lib import browser, core
from checks import c28, c36
from checks.c36 import css
import websockets

from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.server import struct as ui_struct
from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab

PROPERTY = "C37"
RULE = (
    "random configurations (clients, tasks, structures, processes, prefixes, "
    "redirects, landing pages) are run as whole applications on real "
    "sockets, and used with HTTP requests, raw websockets and the served "
    "page's own scripts; non-trivial = distinct configuration"
)
REQUIRED = {"apps": 16, "pages": 30, "tabs": 200, "redirects": 70,
            "commands": 80, "loads": 16, "shown": 100, "values": 3000,
            "landing": 6, "clients": 35, "processes": 1, "across": 4,
            "frames": 60, "opened": 3}
QUICK_BUDGET_S = 100.0
LOG = logging.getLogger("verif.c37")
LOG.propagate = False
LOG.addHandler(logging.NullHandler())

TASKS = ["sinusoid", "sample", "Sinusoid"]
STRUCTS = ["sample_struct", "trig_struct", "gaussian_source",
           "toggle_stepper"]
WORDS = ["alpha", "b-2", "c.3", "wave", "x_y", "Zed", "n0", "t.u.v"]


def reset():
    """Applications are usually the only one of their process."""
    RuntimepyServerConnection.apps = {}
    RuntimepyServerConnection.default_app = None
    RuntimepyServerConnection.class_redirect_paths = {}
    RuntimepyServerConnection.json_data = {}
    ChannelEnvironmentTab.all_tabs.clear()
    ui_struct.UI = None


class Document:
    """A random configuration."""

    def __init__(self, case):
        rng = case.rng
        self.rng = rng
        used = rng.sample(WORDS, len(WORDS))
        self.markers = {}
        self.names = {"housekeeping", "ui"}
        self.data = {"includes": ["package://runtimepy/server.yaml"]}
        self.config = self.data["config"] = {}

        def marked(name, item):
            if rng.random() < 0.5:
                text = f"text {rng.randrange(1 << 30)} of it"
                self.markers[name] = text
                item["markdown"] = f"# Title\n\n{text}\n"

        self.clients = []
        for _ in range(rng.choice([0, 1, 2])):
            name = used.pop()
            kind = rng.choice(["tcp_json", "websocket_json", "udp_json",
                               "tcp_echo", "udp_queue"])
            item = {"factory": kind, "name": name, "defer": True}
            if kind == "tcp_json":
                self.server("tcp_json", "$tcp_json")
                item["kwargs"] = {"host": "localhost", "port": "$tcp_json"}
            elif kind == "websocket_json":
                self.server("websocket_json", "$websocket_json")
                item["args"] = ["ws://localhost:$websocket_json"]
            elif kind == "tcp_echo":
                self.data.setdefault("ports", []).append(
                    {"name": f"echo{len(used)}", "type": "tcp"}
                )
                self.server("tcp_echo", f"$echo{len(used)}")
                item["kwargs"] = {"host": "localhost",
                                  "port": f"$echo{len(used)}"}
            else:
                item["kwargs"] = {"remote_addr": ["localhost", "$udp_json"]}
                if "listener" not in self.names:
                    self.names.add("listener")
                    self.clients.append(
                        {"factory": "udp_json", "name": "listener", "kwargs":
                         {"local_addr": ["localhost", "$udp_json"]}}
                    )
            marked(name, item)
            self.clients.append(item)
            self.names.add(
                f"tcp.echo.{name}" if kind == "tcp_echo" else name
            )
            if kind == "tcp_echo" and name in self.markers:
                self.markers[f"tcp.echo.{name}"] = self.markers.pop(name)
        for kind, pool, count in (("tasks", TASKS, [0, 1, 2]),
                                  ("structs", STRUCTS, [0, 1, 2])):
            for _ in range(rng.choice(count)):
                name = used.pop()
                item = {"factory": rng.choice(pool), "name": name}
                if kind == "tasks":
                    item["period_s"] = rng.choice([0.01, 0.05, 10.0])
                    marked(name, item)
                else:
                    item["config"] = {}
                    marked(name, item["config"])
                self.data.setdefault(kind, []).append(item)
                self.names.add(name)
        if self.clients:
            self.data["clients"] = self.clients

        self.process = None
        if rng.random() < 0.15:
            self.process = name = used.pop()
            item = {
                "factory": "sample_peer", "name": name,
                "program": "runtimepy.sample.program.SampleProgram",
                "config": {
                    "includes": ["package://runtimepy/server.yaml"],
                    "app": "runtimepy.sample.program.run",
                },
            }
            marked(f"{name}.host", item)
            marked(f"{name}.peer", item["config"].setdefault("config", {}))
            self.data["processes"] = [item]
            self.names |= {f"{name}.host", f"{name}.peer"}

        # What's served.
        self.apps = ["/app.html"]
        self.redirects = {"/": "/index.html", "/index.html": "/app.html"}
        prefixes = rng.sample(["one", "/two", "a/b", "/c.d"],
                              rng.choice([0, 0, 1, 2]))
        if prefixes:
            self.config["http_app_prefixes"] = prefixes
        for item in prefixes:
            item = "/" + item.lstrip("/")
            self.redirects[item] = f"{item}/index.html"
            self.redirects[f"{item}/index.html"] = f"{item}/app.html"
            self.apps.append(f"{item}/app.html")
        if rng.random() < 0.4:
            self.config["http_app_paths"] = ["/other/page"]
            self.apps.append("/other/page")
        if rng.random() < 0.4:
            extra = {"/go": "/app.html", "/away/x": "http://example.com/y?z=1"}
            self.config["http_redirects"] = extra
            self.redirects.update(extra)
        for item in prefixes:
            if rng.random() < 0.3:
                # Explicit redirects win.
                key = rng.choice([f"/{item.lstrip('/')}",
                                  f"/{item.lstrip('/')}/index.html"])
                self.config.setdefault("http_redirects", {})[key] = "/else"
                self.redirects[key] = "/else"
        self.landing = []
        if rng.random() < 0.4:
            self.landing = rng.sample(["/landing", "/land/x.html", "/l2"],
                                      rng.choice([1, 2]))
            self.config["landing_page"] = {
                "paths": self.landing, "markdown": "# Land\n\nlanding-text\n"
            }
        self.around = {}
        for item in ("top_markdown", "bottom_markdown"):
            if rng.random() < 0.5:
                self.around[item] = self.config[item] = f"{item} is here"
        self.experimental = rng.random() < 0.2
        if self.experimental:
            self.config["experimental"] = True
        if rng.random() < 0.4:
            self.config["caching"] = rng.random() < 0.5
        self.polled = None
        if rng.random() < 0.5:
            self.polled = rng.random() < 0.5
            self.config["poll_connection_metrics"] = self.polled
        self.opened = None
        if rng.random() < 0.3:
            self.config["xdg_open_http"] = True
            self.opened = {"host": "localhost", "fragment": ""}
            for key, value in (("host", "some.host"), ("fragment", "a,b")):
                if rng.random() < 0.5:
                    self.opened[key] = self.config[f"xdg_{key}"] = value
        self.hostname = "localhost"
        if rng.random() < 0.3:
            self.data["websocket_hostname"] = self.hostname = "127.0.0.1"

    def server(self, factory, port):
        servers = self.data.setdefault("servers", [])
        item = {"factory": factory, "kwargs": {"port": port}}
        if factory == "websocket_json":
            item["kwargs"]["host"] = "0.0.0.0"
        if item not in servers:
            servers.append(item)


async def fetch(port, path, method="GET"):
    """An HTTP request."""

    reader, writer = await asyncio.open_connection("127.0.0.1", port)
    try:
        writer.write(
            f"{method} {path} HTTP/1.1\r\nHost: localhost\r\n\r\n".encode()
        )
        await writer.drain()
        head = (await reader.readuntil(b"\r\n\r\n")).decode().split("\r\n")
        headers = {}
        for line in head[1:]:
            if line:
                key, _, value = line.partition(":")
                headers[key.strip().lower()] = value.strip()
        body = b""
        if int(headers.get("content-length", 0)):
            body = await reader.readexactly(int(headers["content-length"]))
        return int(head[0].split()[1]), headers, body
    finally:
        writer.close()


def walk(node):
    """All elements."""
    yield node
    for item in node["items"]:
        yield from walk(item)


def text_of(node):
    return node["text"] + "".join(text_of(x) for x in node["items"])


def by_id(tree, ident):
    return [x for x in walk(tree) if x["attrs"].get("id") == ident]


class Stream:
    """A websocket that also works for the page."""

    def __init__(self, case, sock):
        self.case = case
        self.sock = sock
        self.data = b""
        self.mark = 1000000

    async def message(self):
        """The next message."""
        while True:
            if len(self.data) >= 4:
                end = 4 + int.from_bytes(self.data[:4], "big")
                if len(self.data) >= end:
                    raw, self.data = self.data[:end], self.data[end:]
                    return raw
            got = await asyncio.wait_for(self.sock.recv(), 20.0)
            self.case.expect(isinstance(got, bytes), "text", repr(got))
            self.data += got

    async def sync(self):
        """Everything that's sent before everything's handled."""
        self.mark += 1
        await self.sock.send(c36.frame({"loopback": {"m": self.mark}}))
        out = []
        while True:
            raw = await self.message()
            data = json.loads(raw[4:])
            if data.get("loopback") == {"m": self.mark}:
                return out
            out.append(raw)


class World:
    """A running application."""

    def __init__(self, case, document, info):
        self.case = case
        self.rng = case.rng
        self.document = document
        self.info = info
        self.port = info.ports["runtimepy_http_server"]
        self.envs = {}
        for name, item in [*info.connections.items(), *info.tasks.items(),
                           *info.structs.items()]:
            self.envs[name] = item.command.env
        for item in info.peers.values():
            self.envs[item.struct.name] = item.struct.command.env
            self.envs[item.peer_name] = item.peer.env

    async def app(self):
        """What the application must be."""

        case = self.case
        case.equal(set(self.envs), self.document.names, "registered")
        order = [self.redirects, self.landing, self.pages, self.json,
                 self.posted, self.counted, self.browse]
        if self.document.process is not None:
            order.append(self.process)
        self.rng.shuffle(order)
        order.insert(0, self.housekeeping)
        order.append(self.opened)
        for item in order:
            case.note(item.__name__)
            await item()

    async def redirects(self):
        case = self.case
        for path, dest in self.document.redirects.items():
            status, headers, _ = await fetch(self.port, path)
            case.equal(
                (status // 100, headers.get("location")), (3, dest),
                "redirect", path,
            )
            case.event("redirects")
        status, headers, _ = await fetch(self.port, "/nothing/here")
        case.equal(
            (status // 100, headers.get("location")), (3, "/404.html"),
            "unknown",
        )
        status, headers, body = await fetch(self.port, "/404.html")
        case.equal(status, 200, "not-found-page")

    async def landing(self):
        case = self.case
        for path in self.document.landing:
            status, headers, body = await fetch(self.port, path)
            case.equal(status, 200, "landing", path)
            case.expect("text/html" in headers["content-type"], "landing")
            tree = browser.parse(body.decode())
            found = [x for x in walk(tree) if "landing-text" in x["text"]]
            case.equal(len(found), 1, "landing-text", path)
            case.event("landing")

    async def page(self, path):
        status, headers, body = await fetch(self.port, path)
        self.case.equal(status, 200, "page", path)
        self.case.expect(
            headers["content-type"].startswith("text/html"), "page-type"
        )
        return browser.parse(body.decode())

    async def pages(self):
        """Pages have all tabs."""

        case = self.case
        for path in self.document.apps:
            tree = await self.page(path)
            idents = [x["attrs"].get("id") for x in walk(tree)]
            suffix = "-tab"
            mine = sorted(
                x[len("runtimepy-"): -len(suffix)] for x in idents
                if x and x.startswith("runtimepy-") and x.endswith(suffix)
            )
            extra = set(mine) - set(self.envs)
            if not self.document.experimental:
                case.equal(extra, set(), "other-tabs", path)
            case.equal(
                [x for x in mine if x not in extra], sorted(self.envs),
                "tabs", path,
            )
            for name, env in self.envs.items():
                found = by_id(tree, f"runtimepy-{name}")
                case.equal(len(found), 1, "tab-content", name)
                rows = [
                    x["attrs"].get("id") for x in walk(found[0])
                    if x["tag"] == "tr" and "channel-row" in
                    x["attrs"].get("class", "").split()
                ]
                case.equal(sorted(rows), sorted(env.names), "rows", name)
                want = self.document.markers.get(name)
                text = text_of(found[0])
                for key, value in self.document.markers.items():
                    case.equal(
                        value in text, value == want, "markdown",
                        f"{key} in {name}",
                    )
                case.event("tabs")
            text = text_of(tree)
            for marker in self.document.around.values():
                case.equal(text.count(marker), 1, "around", marker)
            case.event("pages")

    async def json(self):
        """The configuration and all environments."""

        case = self.case
        _, _, body = await fetch(self.port, "/json")
        data = json.loads(body)
        case.equal(
            set(data["environments"]), set(self.envs), "environments"
        )
        ports = {x["name"]: x["port"] for x in data["config"]["ports"]}
        case.equal(ports, dict(self.info.ports), "ports")
        for key, value in self.document.config.items():
            if isinstance(value, (str, bool)) or key == "landing_page":
                case.equal(data["config"]["config"].get(key), value,
                           "config", key)

    def settable(self, name):
        env = self.envs[name]
        if name in self.info.tasks and type(
            self.info.tasks[name]
        ).__name__.startswith("Sample"):
            # (They change channels on their own.)
            return []
        if name.endswith(".peer"):
            # (Takes time.)
            return []
        return [
            x for x in env.names
            if (chan := env.get(x)) is not None
            and chan[0].commandable and chan[1] is None
            and not chan[0].raw.scaling
            and " " not in x
            and (not name.endswith(".host") or x.endswith(".int"))
        ]

    def pick(self):
        """A channel and a command for it."""

        names = [x for x in sorted(self.envs) if self.settable(x)]
        name = self.rng.choice(names)
        chan = self.rng.choice(self.settable(name))
        env = self.envs[name]
        if isinstance(env.value(chan), bool):
            before = env.value(chan)
            return name, chan, ["toggle", chan], not before
        value = self.rng.randint(1, 100)
        return name, chan, ["set", chan, str(value)], value

    def check(self, name, chan, value, what):
        got = self.envs[name].value(chan)
        self.case.expect(
            got == value or abs(got - value) < 1e-3, what,
            f"{name}.{chan}: {got} instead of {value}",
        )

    async def posted(self):
        """Commands have their effect."""

        case = self.case
        for _ in range(3):
            name, chan, args, value = self.pick()
            status, _, body = await fetch(
                self.port, "/".join(["", name, *args]), "POST"
            )
            case.equal(status, 200, "post-status", str(args))
            case.equal(json.loads(body)["success"], True, "post", str(args))
            self.check(name, chan, value, "posted")
            case.event("commands")

    async def eventually(self, name, chan, value, what):
        """Wait for a value."""
        for _ in range(1000):
            if self.envs[name].value(chan) == value:
                break
            await asyncio.sleep(0.02)
        self.check(name, chan, value, what)

    async def process(self):
        """Another process has an application too."""

        case, rng = self.case, self.rng
        peer = self.info.peers[self.document.process]
        host, remote = peer.struct.name, peer.peer_name
        case.equal((host, remote), (
            f"{self.document.process}.host", f"{self.document.process}.peer"
        ), "process-names")
        await asyncio.wait_for(peer.peer_config_event.wait(), 20.0)
        ports = {x["name"]: x["port"] for x in peer.peer_config["ports"]}
        case.expect(
            not set(ports.values()) & set(self.info.ports.values()),
            "process-ports", str(ports),
        )
        port = ports["runtimepy_http_server"]
        status, _, body = await fetch(port, "/app.html")
        case.equal(status, 200, "process-page")
        tree = browser.parse(body.decode())
        for name in (host, remote, "housekeeping", "ui"):
            case.equal(len(by_id(tree, f"runtimepy-{name}-tab")), 1,
                       "process-tab", name)
        status, _, body = await fetch(port, "/json")
        case.equal(
            sorted(json.loads(body)["environments"]),
            sorted(["ui", "housekeeping", host, remote]), "process-json",
        )
        for _ in range(4):
            # (Where it's asked for, what's changed.)
            where = rng.choice([port, self.port])
            name = rng.choice([host, remote])
            chan = rng.choice(
                [x for x in self.envs[name].names if x.endswith(".int")]
            )
            value = rng.randint(1, 200)
            # (Everyone's own environment is its host's.)
            there = name
            if where == port:
                there = remote if name == host else host
            status, _, body = await fetch(
                where, f"/{there}/set/{chan}/{value}", "POST"
            )
            case.equal(status, 200, "process-status")
            case.equal(json.loads(body)["success"], True, "process-post",
                       f"{name} {chan} {value}")
            await self.eventually(
                name, chan, value,
                "process-host" if where == self.port else "process-child",
            )
            case.event("across")
        case.event("processes")

    async def opened(self):
        """A browser is started if that's configured."""

        path = self.case.scratch / "opened"
        want = self.document.opened
        if want is None:
            self.case.equal(path.exists(), False, "opened")
            return
        text = f"http://{want['host']}:{self.port}/"
        if want["fragment"]:
            text += "#" + want["fragment"]
        for _ in range(1000):
            if path.exists() and path.read_text().endswith("\n"):
                break
            await asyncio.sleep(0.02)
        self.case.expect(path.exists(), "not-opened", "no browser")
        self.case.equal(path.read_text(), f"({text})\n", "opened")
        self.case.event("opened")

    async def connect(self):
        port = self.info.ports["runtimepy_websocket_json_server"]
        sock = await websockets.connect(f"ws://localhost:{port}",
                                        max_size=None)
        stream = Stream(self.case, sock)
        # (Servers introduce themselves.)
        for _ in range(4):
            for raw in await stream.sync():
                data = json.loads(raw[4:])
                if "__id__" in data:
                    await sock.send(c36.frame({
                        x: data[x] for x in ("__id__", "loopback")
                        if x in data
                    }))
        return stream

    def connections(self):
        return self.envs["ui"].value("num_connections")

    async def until(self, count, what):
        for _ in range(400):
            if self.connections() == count:
                break
            await asyncio.sleep(0.01)
        self.case.equal(self.connections(), count, what)

    async def counted(self):
        """Clients are counted."""

        base = self.connections()
        self.case.equal(base, 0, "nobody")
        streams = []
        for idx in range(self.rng.choice([1, 2, 4])):
            streams.append(await self.connect())
            await self.until(idx + 1, "connected")
            self.case.event("clients")
        self.rng.shuffle(streams)
        when = {id(x): 0 for x in streams}
        now = 0
        while streams:
            # Someone's frames are the interface's.
            for _ in range(2):
                await asyncio.sleep(0.01)
                now += self.rng.randint(1, 100)
                periods = {now - when[id(x)] for x in streams}
                for stream in streams:
                    await stream.sock.send(c36.frame({"ui": {"time": now}}))
                for stream in streams:
                    await stream.sync()
                    when[id(stream)] = now
                self.case.equal(
                    self.envs["ui"].value("time_ms"), now, "frame-time"
                )
                got = self.envs["ui"].value("frame_period_ms")
                self.case.expect(got in periods, "frame-period",
                                 f"{got} not of {periods}")
                self.case.event("frames")
            leaving = streams.pop(self.rng.randrange(len(streams)))
            await leaving.sock.close()
            await self.until(len(streams), "disconnected")

    async def browse(self):
        """Use a page's own scripts."""

        case, rng = self.case, self.rng
        path = rng.choice(self.document.apps)
        tree = await self.page(path)
        # (Pages find it next to them.)
        status, _, body = await fetch(
            self.port, path.rsplit("/", 1)[0] + "/json"
        )
        case.equal(status, 200, "page-config", path)
        host = self.document.hostname
        urls = {
            x: f"ws://{host}:" + str(
                self.info.ports[f"runtimepy_websocket_{x}_server"]
            ) for x in ("json", "data")
        }
        with browser.Browser(case) as view:
            view.op("load", tree=tree, config=json.loads(body), hash="",
                    seed=rng.randint(1, 1 << 30), hostname="localhost", pathname=path)
            case.equal(sorted(view.sockets), sorted(urls.values()),
                       "sockets", path)
            case.equal(
                [x for kind, x in view.other if kind == "fetch"],
                [path.rsplit("/", 1)[0] + "/json"], "fetched",
            )
            data = await websockets.connect(urls["data"])
            stream = Stream(case, await websockets.connect(
                urls["json"], max_size=None))
            for url in urls.values():
                view.op("open", url=url)
            case.event("loads")
            when = 1000.0

            async def exchange():
                for _ in range(20):
                    sent = view.take(urls["json"])
                    for raw, text in sent:
                        await stream.sock.send(raw)
                    got = await stream.sync()
                    for raw in got:
                        view.receive(urls["json"], raw)
                    if not sent and not got:
                        return
                    if not sent:
                        continue

            async def frame():
                nonlocal when
                when += 17.0
                await exchange()
                view.op("frame", who="worker", time=when)
                await exchange()
                view.op("frame", who="main", time=when)

            await frame()
            case.equal(self.connections(), 1, "page-connected")
            chosen = rng.sample(sorted(self.envs),
                                min(4, len(self.envs)))
            for name in chosen:
                env = self.envs[name]
                view.op("click", sel=css(f"runtimepy-{name}-tab"))
                await frame()
                await self.shown(view, name, frame)
                options = self.settable(name)
                if not options:
                    continue
                chan = rng.choice(options)
                value = (
                    not env.value(chan)
                    if isinstance(env.value(chan), bool)
                    else rng.randint(1, 100)
                )
                c36.command(
                    _Page(case, view, name), f"set {chan} "
                    + (str(value).lower() if isinstance(value, bool)
                       else str(value)),
                )
                await exchange()
                self.check(name, chan, value, "entered")
                case.event("commands")
                await frame()
                await self.shown(view, name, frame)
            await stream.sock.close()
            await data.close()
            await self.until(0, "page-left")

    async def shown(self, view, name, frame):
        """Values that don't change are shown."""

        env = self.envs[name]

        def values():
            return {x: c28.seen(y) for x, y in env.values().items()}

        before = values()
        await frame()
        await frame()
        after = values()
        rows = view.op(
            "get", root=f"runtimepy-{name}",
            sel="tr.channel-row", props=["id"],
        )
        cells = view.op(
            "get", root=f"runtimepy-{name}",
            sel="tr.channel-row > td.channel-value", props=["innerHTML"],
        )
        self.case.equal(len(rows), len(cells), "cells", name)
        for (chan,), (html,) in zip(rows, cells):
            if before[chan] != after[chan] or chan in self.changing(name):
                continue
            text = html.replace("&nbsp;", "")
            self.case.expect(
                c36.displays(text, after[chan]), "value",
                f"{name}.{chan} shows {text!r}, is {after[chan]!r}",
            )
            self.case.event("values")
        self.case.event("shown")

    def changing(self, name):
        """What may have changed and changed back."""
        env = self.envs[name]
        out = set()
        for chan in env.names:
            found = env.get(chan)
            if found is not None and (
                chan.startswith("metrics") or ".metrics" in chan
                or name in ("ui", "housekeeping")
                or name in self.info.tasks
                and not found[0].commandable
            ):
                out.add(chan)
        return out

    async def housekeeping(self):
        """Metrics are polled if that's configured."""
        want = bool(self.document.polled)
        self.case.equal(
            self.envs["housekeeping"].value("poll_connection_metrics"),
            want, "poll-connection-metrics",
        )


class _Page:
    """Something that commands can be entered for."""

    def __init__(self, case, view, shown):
        self.case = case
        self.view = view
        self.shown = shown


def run_app(case):
    """Run an application."""

    document = Document(case)
    case.distinct(json.dumps(document.data, sort_keys=True))
    path = case.scratch / "config.json"
    path.write_text(json.dumps(document.data), encoding="utf-8")
    done = []

    async def app(info):
        try:
            await World(case, document, info).app()
            done.append(True)
        except BaseException as exc:
            done.append(exc)
            raise
        return 0

    async def main():
        arb = ConnectionArbiter(logger=LOG)
        await arb.load_configs([path])
        case.equal(await arb.app(app), 0, "result")

    # (Nothing's opened for real.)
    folder = case.scratch / "bin"
    folder.mkdir()
    script = folder / "xdg-open"
    script.write_text(
        f'#!/bin/sh\necho "($*)" >> "{case.scratch}/opened"\n',
        encoding="utf-8",
    )
    script.chmod(0o755)
    previous = os.environ["PATH"]
    os.environ["PATH"] = f"{folder}:{previous}"

    reset()
    try:
        asyncio.run(asyncio.wait_for(main(), 90.0))
    except (asyncio.TimeoutError, TimeoutError) as exc:
        if not done:
            raise core.Inconclusive("the application took too long") from exc
        raise
    finally:
        os.environ["PATH"] = previous
        reset()
        if done and done[0] is not True:
            raise done[0]
    case.equal(len(done), 1, "app-ran")
    case.event("apps")


KINDS = {
    "app": (run_app, 100, 1500),
}
