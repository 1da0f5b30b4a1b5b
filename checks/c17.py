"""C17: the web server serves exactly what it is configured to."""

import asyncio
import json
import logging
from pathlib import Path

from checks.c16 import Transport, read_responses
from lib import nets, vloop
from svgen.element.html import div

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command import (
    GLOBAL,
    clear_env,
    env_json_data,
    register_env,
)
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.server.app.create import create_app, create_cacheable_app
from runtimepy.net.tcp.protocol import QueueProtocol

PROPERTY = "C17"
RULE = (
    "live server connections over random directory trees (with canary files "
    "beside them), random JSON data, channel environments, redirects and "
    "applications receive pipelined GET and POST requests, well-formed and "
    "hostile; every response is compared with a model of the tree, the data "
    "and a twin environment; non-trivial = distinct (layout, targets) sets"
)
REQUIRED = {"files": 750, "empty_files": 30, "first_match": 50,
            "markdown": 50, "compressed": 30, "missing": 150,
            "traversal": 300, "json": 500, "json_missing": 100,
            "json_leaf": 100, "env_json": 100, "commands": 300,
            "command_failures": 50, "redirects": 40, "apps": 75,
            "long": 25, "two_connections": 30, "changed_files": 30,
            "cached_apps": 20, "favicon": 10}
LOG = logging.getLogger("verif.c17")
LOG.propagate = False
CANARY = b"CANARY-do-not-serve"

TYPES = {
    "txt": "text/plain",
    "html": "text/html",
    "json": "application/json",
    "png": "image/png",
    "css": "text/css",
    "zzz": "application/octet-stream",
    "": "application/octet-stream",
    "gz": None,
    "tar.gz": None,
    "bz2": None,
}


class Tree:
    """Directories that are served and the files in them."""

    def __init__(self, case):
        rng = case.rng
        self.case = case
        base = case.scratch
        self.outside = base / "outside"
        self.outside.mkdir()
        (self.outside / "secret.txt").write_bytes(CANARY)
        (self.outside / "secret.md").write_bytes(CANARY)
        (base / "secret.txt").write_bytes(CANARY)
        self.roots = []
        self.files = {}  # path -> list of (root index, data, ext)
        self.marks = {}  # markdown stem -> marker
        names = ["a", "b", "data", "index", "json5", "x.y", "with-dash", "_"]
        for i in range(rng.randint(1, 3)):
            root = base / f"root{i}"
            root.mkdir()
            # A sibling whose name starts with the root's name.
            (base / f"root{i}x").mkdir(exist_ok=True)
            (base / f"root{i}x" / "secret.txt").write_bytes(CANARY)
            self.roots.append(root)
            for _ in range(rng.randint(1, 6)):
                folder = rng.choice(["", "", "sub/", "sub/deep/", "sub.d/"])
                ext = rng.choice(list(TYPES))
                name = folder + rng.choice(names) + ("." + ext if ext else "")
                if self.files and rng.random() < 0.3:
                    name = rng.choice(list(self.files))
                    ext = self.files[name][0][2]
                data = rng.choice([b"", rng.randbytes(rng.randrange(3000))])
                path = root / name
                path.parent.mkdir(exist_ok=True, parents=True)
                if path.is_dir():
                    continue
                path.write_bytes(data)
                kept = self.files.setdefault(name, [])
                kept[:] = [x for x in kept if x[0] != i] + [(i, data, ext)]
            if rng.random() < 0.5:
                stem = rng.choice(["", "sub/"]) + f"page{i}"
                marker = f"marker{rng.randrange(10**9)}"
                path = root / (stem + ".md")
                path.parent.mkdir(exist_ok=True)
                path.write_text(f"# Title\n\n{marker} text\n")
                self.marks[stem] = marker
                if rng.random() < 0.5:
                    # A file of another type next to it.
                    (root / (stem + ".txt")).write_bytes(b"plain" + CANARY[:3])
                    self.files.setdefault(stem + ".txt", []).append(
                        (i, b"plain" + CANARY[:3], "txt")
                    )

    def change(self, case):
        """Change a served file."""

        rng = case.rng
        name = rng.choice(list(self.files))
        entries = self.files[name]
        i, _, ext = entries[0]
        data = rng.randbytes(rng.randrange(2000))
        (self.roots[i] / name).write_bytes(data)
        entries[0] = (i, data, ext)
        case.event("changed_files")


def build(seed, rng_type):
    """Build the same environment for equal seeds."""

    rng = rng_type(seed)
    env = ChannelEnvironment()
    env.enum("State", "int", items={"off": 0, "on": 1, "idle": 7})
    env.int_channel("num", kind="int16", commandable=True)
    env.int_channel("ro", kind="uint8")
    env.float_channel("real", kind="double", commandable=True)
    env.bool_channel("flag", commandable=True)
    env.int_channel("state", kind="uint8", enum="State", commandable=True)
    env.finalize()
    env.set("ro", rng.randrange(256))
    env.set("num", rng.randrange(-100, 100))
    return env


def commands(rng):
    """A random command."""

    return rng.choice(
        [
            ["set", "num", str(rng.randrange(-40000, 40000))],
            ["set", "real", rng.choice(["1.5", "-2e3", "nan", "bogus", "7"])],
            ["set", "flag", rng.choice(["true", "false", "1", "what"])],
            ["set", "state", rng.choice(["on", "off", "idle", "7", "zip"])],
            ["toggle", rng.choice(["flag", "num", "nope"])],
            ["get", rng.choice(["num", "state", "ro", "nope"])],
            ["set", "ro", "5"],
            ["set", "ro", "6", "-f"],
            ["bogus", "x"],
            ["set"],
            [],
        ]
    )


def lookup(data, parts):
    """Find a part of JSON data: (found, value)."""

    for part in parts:
        if not part:
            continue
        if callable(data):
            data = data()
        if not isinstance(data, dict) or part not in data:
            return False, part
        data = data[part]
    if callable(data):
        data = data()
    return True, data


def plain(data):
    """Data as a JSON decoder would return it."""
    return json.loads(json.dumps(data, default=lambda x: x()))


class Site:
    """A configured server and requests with their expected responses."""

    def __init__(self, case):
        rng = case.rng
        self.case = case
        self.tree = Tree(case)
        self.envs = {}
        self.twins = {}
        for name in rng.sample(["env1", "env2", "a.b", "x-y"], 2):
            seed = rng.random()
            env = build(seed, type(rng))
            proc = ChannelCommandProcessor(env, LOG)
            register_env(name, proc)
            self.envs[name] = proc
            self.twins[name] = ChannelCommandProcessor(
                build(seed, type(rng)), LOG
            )

        self.counter = rng.randrange(100)
        self.data = {
            "custom": nets.json_dict(rng, 3),
            "a": {"b": {"c": [1, 2, {"d": 5}]}, "n": None, "s": "text"},
            "call": lambda: {"now": self.counter, "deep": lambda: "leaf"},
            "environments": env_json_data(),
        }
        self.redirects = {}
        for i in range(rng.randrange(3)):
            dest = rng.choice(["/index.html", "http://other/x?y=1", "/"])
            self.redirects[rng.choice([f"/r{i}", f"/old/r{i}"])] = dest

        def make_app(label):
            async def app(document, request, response, request_data):
                await asyncio.sleep(0)
                div(parent=document.body, text=f"app-{label}-end")
                return document

            return app

        self.apps = {
            f"/app{i}": f"{i}x{rng.randrange(10**6)}"
            for i in range(rng.randrange(3))
        }
        self.default = rng.choice([None, f"default{rng.randrange(10**6)}"])

        tree, data, redirects = self.tree, self.data, self.redirects

        class Server(RuntimepyServerConnection):
            apps = {k: make_app(v) for k, v in self.apps.items()}
            default_app = (
                staticmethod(make_app(self.default)) if self.default else None
            )
            json_data = data
            class_paths = list(tree.roots)
            class_redirect_paths = {}

        for key, dest in redirects.items():
            Server.add_redirect_path(
                dest, rng.choice([key, key[1:], Path(key)])
            )
        self.server = Server

    # -- requests: (method, target, verify(status, fields, body)) ---------

    def html(self, status, fields, body, needle, what):
        case = self.case
        case.equal(status, 200, f"{what}-status")
        case.expect(
            fields["content-type"].startswith("text/html"), f"{what}-type"
        )
        case.equal(
            body.count(needle.encode()), 1, f"{what}-content", needle
        )

    def missing(self, status, fields, body, what="missing"):
        """The response for something that isn't there."""

        case = self.case
        if self.default is not None:
            self.html(status, fields, body, f"app-{self.default}-end", what)
            return
        case.expect(
            status in (307, 302, 303, 404), f"{what}-status", str(status)
        )
        if status != 404:
            case.equal(fields.get("location"), "/404.html", f"{what}-where")

    def get_file(self):
        """An existing file."""

        rng, case = self.case.rng, self.case
        if not self.tree.files:
            return self.get_missing()
        name = rng.choice(list(self.tree.files))
        target = "/" + name + rng.choice(["", "", "?q=1", "?a=/../b"])
        if "/favicon" in target[:8]:
            return self.get_missing()

        def verify(status, fields, body):
            entries = self.tree.files[name]
            _, data, ext = entries[0]
            case.event("files")
            case.event("empty_files", not data)
            case.event("first_match", len(entries) > 1)
            case.equal(status, 200, "file-status", name)
            case.equal(body, data, "file-bytes", name)
            want = TYPES[ext]
            if want is not None:
                case.equal(
                    fields["content-type"].split(";")[0], want, "file-type"
                )
            else:
                case.event("compressed")

        return "GET", target, verify

    def get_markdown(self):
        case, rng = self.case, self.case.rng
        if not self.tree.marks:
            return self.get_file()
        stem = rng.choice(list(self.tree.marks))

        def verify(status, fields, body):
            case.event("markdown")
            self.html(
                status, fields, body, self.tree.marks[stem], "markdown"
            )

        return "GET", f"/{stem}" + rng.choice(["", ".md", ".html"]), verify

    def get_missing(self):
        case, rng = self.case, self.case.rng
        target = rng.choice(
            ["/no/such/file.txt", "/sub", "/sub/", "/nope", "/sub.d/q"]
        )
        if rng.random() < 0.2:
            case.event("long")
            target = "/" + "n" * rng.choice([252, 255, 256, 300, 5000])

        def verify(status, fields, body):
            case.event("missing")
            self.missing(status, fields, body)

        return "GET", target, verify

    def get_outside(self):
        """Targets that try to leave the configured directories."""

        case, rng = self.case, self.case.rng
        base = str(case.scratch)
        up = "../" * rng.randint(1, 3)
        name = rng.choice(
            ["secret.txt", "outside/secret.txt", "outside/secret.md",
             "outside/secret", "root0x/secret.txt", "root1x/secret.txt"]
        )
        target = rng.choice(
            [
                f"/{up}{name}",
                f"//{up}{name}",
                f"/{base}/{name}",
                f"//{base[1:]}/{name}",
                f"///{base[1:]}/{name}",
                f"/sub/../../{name}",
                f"/sub/deep/../../../{name}",
                f"/./{up}{name}",
                f"/%2e%2e/{name}",
                f"/..%2f{name}",
                f"/..\\{name}",
                f"/json/{up}{name}",
                f"/{up}{'../' * 20}{base[1:]}/{name}",
                f"/x/{up}{up}{name}",
                f"/..?/{name}",
                f"/{up}root0/../{name}",
            ]
        )

        def verify(status, fields, body):
            case.event("traversal")
            case.expect(
                CANARY not in body, "read-outside", f"{target} {status}"
            )
            if "json" not in target:
                self.missing(status, fields, body, "outside")

        return "GET", target, verify

    def get_json(self):
        """A part of the JSON data."""

        case, rng = self.case, self.case.rng
        parts = []
        data = self.data
        while isinstance(data, dict) and rng.random() < 0.85:
            keys = [
                x
                for x in data
                if x and all(c.isalnum() and c.isascii() for c in x)
                and x not in ("json", "environments")
            ]
            if not keys or rng.random() < 0.1:
                parts.append(rng.choice(["nokey", "0", "keys", "__raw__"]))
                break
            parts.append(rng.choice(keys))
            data = data[parts[-1]]
            if callable(data):
                data = data()
        if not isinstance(data, dict) and rng.random() < 0.3:
            parts.append("under")
        if rng.random() < 0.2:
            parts.insert(rng.randint(0, len(parts)), "")
        # Environments change while commands are handled.
        return self.json_request(
            parts if any(parts) else ["a"], lambda: self.data
        )

    def get_root(self):
        """All of the JSON data."""
        return self.json_request([], lambda: self.data)

    def get_env_json(self):
        """Part of a channel environment."""

        case, rng = self.case, self.case.rng
        name = rng.choice(list(self.envs))
        rest = rng.choice(
            [
                [],
                ["values"],
                ["values", rng.choice(["num", "real", "state", "flag"])],
                ["channels", "num"],
                ["enums", "State"],
                ["channels", "state", "enum"],
                ["values", "nope"],
            ]
        )
        case.event("env_json")
        return self.json_request(
            ["environments", name] + rest,
            lambda: {
                "environments": {
                    k: v.env.export_json() for k, v in self.twins.items()
                }
            },
        )

    def json_request(self, parts, source):
        case, rng = self.case, self.case.rng
        prefix = rng.choice(["/json", "/json", "/other/json"])
        target = "/".join([prefix] + parts) + rng.choice(["", "", "?x=y"])

        def verify(status, fields, body):
            found, value = lookup(source(), parts)
            case.event("json")
            case.equal(status, 200, "json-status")
            case.expect(
                fields["content-type"].startswith("application/json"),
                "json-type",
            )
            got = json.loads(body)
            if not found:
                case.event("json_missing")
                case.expect("error" in got, "json-missing-error", target)
                case.equal(got["path"]["part"], value, "json-missing-part")
            elif isinstance(value, dict):
                case.equal(
                    json.dumps(got, sort_keys=True),
                    json.dumps(plain(value), sort_keys=True),
                    "json-value",
                    target,
                )
            else:
                case.event("json_leaf")
                case.equal(
                    json.dumps(got, sort_keys=True),
                    json.dumps({"__raw__": plain(value)}, sort_keys=True),
                    "json-leaf",
                    target,
                )

        return "GET", target, verify

    def get_redirect(self):
        case, rng = self.case, self.case.rng
        if not self.redirects:
            return self.get_missing()
        key = rng.choice(list(self.redirects))

        def verify(status, fields, body):
            case.event("redirects")
            case.equal(status // 100, 3, "redirect-status")
            case.equal(
                fields["location"], self.redirects[key], "redirect-where"
            )
            case.equal(body, b"", "redirect-body")

        return "GET", key + rng.choice(["", "?a"]), verify

    def get_app(self):
        case, rng = self.case, self.case.rng
        if not self.apps:
            return self.get_missing()
        key = rng.choice(list(self.apps))

        def verify(status, fields, body):
            case.event("apps")
            self.html(
                status, fields, body, f"app-{self.apps[key]}-end", "app"
            )

        return "GET", key + rng.choice(["", "?a=b"]), verify

    def get_favicon(self):
        case = self.case

        def verify(status, fields, body):
            case.event("favicon")
            case.equal(status, 200, "favicon-status")
            case.equal(fields["content-type"], "image/x-icon", "favicon-type")
            case.equal(body, self.server.favicon_data, "favicon")

        return "GET", "/favicon.ico", verify

    def post(self):
        """A command."""

        case, rng = self.case, self.case.rng
        known = rng.random() < 0.9
        name = rng.choice(list(self.envs)) if known else "nobody"
        args = commands(rng)
        target = "/" + "/".join([name] + args)
        if rng.random() < 0.1:
            target = "/"
            name, args, known = None, [], False

        def verify(status, fields, body):
            case.event("commands")
            case.equal(status, 200, "command-status")
            case.expect(
                fields["content-type"].startswith("application/json"),
                "command-type",
            )
            got = json.loads(body)
            if name is None:
                case.equal(got["your_command"], [], "command-echo")
            else:
                case.equal(got["your_command"], [name] + args, "command-echo")
            if not known:
                case.event("command_failures")
                case.equal(got["success"], False, "command-unknown-env")
                case.equal(
                    sorted(got["environments"]), sorted(self.envs), "envs"
                )
                return
            # Comparing here keeps both in step: requests of a connection
            # are handled in order and only one of them sends commands.
            want = self.twins[name].command(" ".join(args))
            case.event("command_failures", not want.success)
            case.equal(got["success"], want.success, "command-success", args)
            case.equal(got["message"], str(want), "command-message", args)

        return "POST", target, verify

    def same(self):
        """Both environments hold the same values."""

        for name, proc in self.envs.items():
            for key, value in proc.env.values().items():
                other = self.twins[name].env.values()[key]
                self.case.equal(repr(value), repr(other), "command-effect", key)


GETS = ["get_file"] * 4 + ["get_outside"] * 2 + ["get_json"] * 2 + [
    "get_markdown", "get_missing", "get_redirect", "get_app", "get_json",
]


def site(case):
    """Requests to a configured site."""

    rng = case.rng
    clear_env()
    try:
        made = Site(case)

        async def batch(protocol, transport, kinds):
            """Send some requests and check all responses."""

            sent = []
            for kind in kinds:
                sent.append(getattr(made, kind)())
            data = b""
            for method, target, _ in sent:
                body = nets.payload(rng, 50) if rng.random() < 0.2 else b""
                data += (
                    f"{method} {target} HTTP/1.1\r\nHost: x\r\n"
                    f"Content-Length: {len(body)}\r\n\r\n"
                ).encode() + body
            start = len(transport.written)
            for piece in nets.segments(
                rng, data, rng.choice(["one", "one", "large", "mixed"])
            ):
                protocol.data_received(piece)
                if rng.random() < 0.1:
                    await asyncio.sleep(0)
            await asyncio.sleep(60)
            responses, rest = read_responses(
                case, transport.written[start:]
            )
            case.equal(bytes(rest), b"", "trailing-bytes")
            case.equal(
                len(responses), len(sent), "response-count",
                [x[1] for x in sent],
            )
            case.distinct(
                sorted(made.tree.files), [x[1] for x in sent]
            )
            for (method, target, verify), (first, fields, body) in zip(
                sent, responses
            ):
                case.note(f"{method} {target} -> {first} {len(body)}")
                case.expect(
                    CANARY not in body, "read-outside", f"{target} {first}"
                )
                verify(int(first.split(" ")[1]), fields, body)

        async def main():
            conns = []
            tasks = []
            for _ in range(rng.choice([1, 2])):
                protocol, transport = QueueProtocol(), Transport()
                protocol.connection_made(transport)
                conn = made.server(transport, protocol)
                tasks.append(asyncio.create_task(conn.process()))
                conns.append((conn, protocol, transport))

            for _ in range(rng.randint(1, 3)):
                kinds = [
                    rng.choice(GETS + ["post"] * 4 + ["get_favicon"])
                    for _ in range(rng.randint(1, 8))
                ]
                work = [batch(*conns[0][1:], kinds)]
                if len(conns) > 1:
                    case.event("two_connections")
                    work.append(
                        batch(
                            *conns[1][1:],
                            [
                                rng.choice(GETS)
                                for _ in range(rng.randint(1, 6))
                            ],
                        )
                    )
                await asyncio.gather(*work)
                made.same()

                # The current state of everything is what's served.
                made.counter += 1
                for name in made.envs:
                    value = rng.randrange(256)
                    made.envs[name].env.set("ro", value)
                    made.twins[name].env.set("ro", value)
                await batch(
                    *conns[0][1:],
                    ["get_env_json"] * rng.randint(0, 3)
                    + ["get_root"] * rng.randint(0, 1),
                )
                if made.tree.files:
                    made.tree.change(case)
            for conn, _, _ in conns:
                case.expect(not conn.disabled, "connection-ended")
                conn.disable("done")
            await asyncio.wait(tasks)

        case.sample(
            f"roots={len(made.tree.roots)} files={sorted(made.tree.files)}"
        )
        vloop.run(main(), limit=5000, grace=0)
    finally:
        clear_env()


class Info:
    """What web applications use of an application's information."""

    def __init__(self, config):
        self.logger = LOG
        self.config = config

    def config_param(self, key, default, strict=False):
        assert not strict or key in self.config
        return self.config.get(key, default)


def cached(case):
    """Cached documents belong to their application."""

    rng = case.rng
    count = rng.randint(2, 3)
    calls = [0] * count
    apps = {}
    caching = [rng.random() < 0.7 for _ in range(count)]
    cacheable = [rng.random() < 0.8 for _ in range(count)]

    def make(i):
        def compose(app, document, *_):
            calls[i] += 1
            div(parent=document.body, text=f"doc-{i}-end")
            return document

        def tabs(app, content):
            calls[i] += 1
            div(parent=content.tabs, text=f"doc-{i}-end")

        info = Info({"caching": caching[i]})
        if cacheable[i]:
            return create_cacheable_app(info, compose)
        return create_app(info, tabs)

    for i in range(count):
        apps[f"/{i}"] = make(i)

    class Server(RuntimepyServerConnection):
        class_paths = []
        class_redirect_paths = {}

    Server.apps = apps

    async def main():
        protocol, transport = QueueProtocol(), Transport()
        protocol.connection_made(transport)
        conn = Server(transport, protocol)
        task = asyncio.create_task(conn.process())
        order = [rng.randrange(count) for _ in range(rng.randint(3, 7))]
        for i in order:
            protocol.data_received(f"GET /{i} HTTP/1.1\r\n\r\n".encode())
        await asyncio.sleep(10)
        responses, _ = read_responses(case, transport.written)
        case.equal(len(responses), len(order), "response-count")
        for i, (first, _, body) in zip(order, responses):
            case.event("cached_apps")
            case.expect(" 200" in first, "app-status", first)
            for j in range(count):
                case.equal(
                    body.count(f"doc-{j}-end".encode()),
                    int(i == j),
                    "cached-document",
                    f"asked for {i}, document of {j}",
                )
        for i in set(order):
            if caching[i]:
                case.equal(calls[i], 1, "composed-once")
            else:
                case.equal(calls[i], order.count(i), "composed-each-time")
        case.distinct(order, caching, cacheable)
        conn.disable("done")
        await task

    vloop.run(main(), limit=500, grace=0)


KINDS = {
    "site": (site, 420, 12000),
    "cached": (cached, 30, 400),
}
