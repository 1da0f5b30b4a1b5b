"""C23: configuration files build exactly what they describe."""

import asyncio
from contextlib import asynccontextmanager
import copy
import itertools
import json
import logging
import socket
import sys
import types
import warnings

from lib import vloop

from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.arbiter.config.codec import ConnectionArbiterConfig
from runtimepy.net.arbiter.factory import ConnectionFactory
from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.net.arbiter.task import ArbiterTask
from runtimepy.net.arbiter.task import TaskFactory
from runtimepy.net.connection import Connection
from runtimepy.primitives import Uint16
from runtimepy.subprocess.peer import RuntimepyPeer

PROPERTY = "C23"
RULE = (
    "generated configurations (ports, overrides, factories, clients, "
    "servers, tasks, structs, processes, applications and application data) "
    "are spread over files and includes and loaded into an arbiter; what "
    "factories are asked to create and what an application sees is compared "
    "with the merged document, and documents with one error each have to be "
    "refused; non-trivial = distinct documents"
)
REQUIRED = {"documents": 300, "files": 700, "clients": 500, "deferred": 150,
            "servers": 200, "tasks": 500, "structs": 400, "processes": 200,
            "ports": 500, "port_references": 300, "overrides": 60,
            "apps": 400, "inits": 100, "merged_data": 150, "waiting": 60,
            "refused": 250, "many_ports": 40, "builders": 60,
            "searches": 20, "direct": 60, "errors": 25, "modules": 60}
# Deferred clients of refused documents aren't created.
warnings.filterwarnings("ignore", message=".*was never awaited")
LOG = logging.getLogger("verif.c23")
LOG.propagate = False
LOG.addHandler(logging.NullHandler())
MODULE = "verif_c23_items"
UNIQUE = itertools.count()
RECORD = []


class Conn(Connection):
    """A connection that remembers how it was created."""

    def __init__(self, record):
        self.record = record
        super().__init__(LOG)

    async def _await_message(self):
        await asyncio.sleep(1e7)
        return None

    async def _send_text_message(self, data):
        pass

    async def _send_binay_message(self, data):
        pass

    async def close(self):
        pass


class Factory(ConnectionFactory):
    """Records what is requested."""

    def __init__(self, **kwargs):
        RECORD.append(("factory", type(self).__name__, kwargs))

    async def client(self, name, *args, **kwargs):
        kwargs = dict(kwargs)
        markdown = kwargs.pop("markdown", None)
        record = (
            "client", type(self).__name__, name, list(args), kwargs, markdown,
        )
        RECORD.append(record)
        await asyncio.sleep(0.01)
        return Conn(record)

    async def server_task(self, stop_sig, manager, started_sem, *args,
                          **kwargs):
        RECORD.append(("server", type(self).__name__, list(args), kwargs))

        async def serve():
            started_sem.release()
            await stop_sig.wait()

        return serve()


class Task(ArbiterTask):
    """Remembers how it was created."""

    def __init__(self, name, **kwargs):
        self.kwargs = dict(kwargs)
        RECORD.append(("task", type(self).__name__, name))
        super().__init__(name, **kwargs)

    async def dispatch(self):
        return True


class Struct(RuntimeStruct):
    """Remembers how it was created."""

    def __init__(self, name, config, **kwargs):
        RECORD.append(("struct", type(self).__name__, name))
        super().__init__(name, config, **kwargs)

    def init_env(self):
        self.env.int_channel("value", Uint16())


class Peer(RuntimepyPeer):
    """Doesn't run a program."""

    @classmethod
    @asynccontextmanager
    async def running_program(cls, name, config, import_str, *args,
                              markdown=None, **kwargs):
        RECORD.append(
            ("process", cls.__name__, name, dict(config), import_str,
             markdown)
        )
        yield (cls, name)


KINDS_OF = {
    "clients": ["Alpha", "BravoConn"],
    "servers": ["Alpha", "BravoConn"],
    "tasks": ["CharlieTask", "Delta"],
    "structs": ["EchoStruct", "Foxtrot"],
    "processes": ["GolfPeer"],
}
SNAKE = {"Alpha": "alpha", "BravoConn": "bravo_conn",
         "CharlieTask": "charlie_task", "Delta": "delta",
         "EchoStruct": "echo_struct", "Foxtrot": "foxtrot",
         "GolfPeer": "golf_peer"}


def make_module():
    """Create a module with factories."""

    module = types.ModuleType(MODULE)
    for name in ("Alpha", "BravoConn"):
        setattr(module, name, type(name, (Factory,), {}))
    for name in ("CharlieTask", "Delta"):
        kind = type(name + "Kind", (Task,), {})
        setattr(module, name, type(name, (TaskFactory,), {"kind": kind}))
    for name in ("EchoStruct", "Foxtrot"):
        setattr(module, name, type(name, (Struct,), {}))
    module.GolfPeer = type("GolfPeer", (Peer,), {})

    def app(name):
        async def method(info):
            RECORD.append(("app", name))
            module.state.setdefault("infos", []).append(info)
            if name == module.state.get("last"):
                info.stop.set()
            return 0
        method.__name__ = name
        return method

    for i in range(8):
        setattr(module, f"app{i}", app(f"app{i}"))

    def builder(data):
        RECORD.append(("builder",))
        data.setdefault("tasks", []).append(
            {"name": "built", "factory": "delta", "period_s": 0.5,
             "average_depth": 4}
        )

    module.builder = builder
    module.state = {}
    module.number = 5
    sys.modules[MODULE] = module
    return module


class Document:
    """A generated configuration."""

    def __init__(self, case):
        self.case = case
        rng = self.rng = case.rng
        self.ports = []
        for i in range(rng.randint(0, 4)):
            port = {"name": f"port{i}", "type": rng.choice(["tcp", "udp"])}
            if rng.random() < 0.5:
                port["host"] = rng.choice(["127.0.0.1", "localhost", ""])
            if rng.random() < 0.4:
                port["port"] = free_port(port["type"])
            self.ports.append(port)
        self.overrides = {}
        for port in self.ports:
            if rng.random() < 0.3:
                case.event("overrides")
                self.overrides[port["name"]] = free_port(port["type"])
        case.event("ports", len(self.ports))
        self.namespaces = {}
        self.items = {}
        used = []
        for kind, factories in KINDS_OF.items():
            items = self.items[kind] = []
            for i in range(rng.randint(0, 3)):
                factory = rng.choice(factories)
                used.append(factory)
                items.append(self.item(kind, factory, i))
            case.event(kind, len(items))
        self.factories = []
        for name in SNAKE:
            if name in used or rng.random() < 0.3:
                self.factories.append(self.factory(name))
        rng.shuffle(self.factories)
        self.apps = self.stages("app", 3)
        self.inits = self.stages("init", 2)
        self.config = self.data(2) if rng.random() < 0.6 else None
        self.app_count = 0

    def factory(self, name):
        """Describe a factory."""

        rng = self.rng
        out = {"name": f"{MODULE}.{name}"}
        if rng.random() < 0.4:
            out["namespaces"] = [
                rng.choice("abc") for _ in range(rng.randint(0, 2))
            ]
            self.namespaces[name] = out["namespaces"]
        if name in KINDS_OF["clients"] and rng.random() < 0.4:
            out["kwargs"] = {"option": self.value(), "more": [1, "x"]}
        return out

    def value(self, depth=2):
        """Some JSON-like value."""

        rng = self.rng
        roll = rng.randint(0, 8 if depth else 6)
        if roll <= 1:
            return rng.choice([0, -1, 7, 10**9])
        if roll == 2:
            return rng.choice(["", "text", "a:b", "10:20", "$unknown"])
        if roll == 3:
            return rng.choice([True, False])
        if roll == 4:
            return rng.random()
        if roll <= 6 and self.ports:
            self.case.event("port_references")
            return "$" + rng.choice(self.ports)["name"]
        if roll == 7:
            return [
                self.value(depth - 1) for _ in range(rng.randint(0, 3))
            ]
        if roll == 8:
            return {
                k: self.value(depth - 1)
                for k in rng.sample(["k", "l", "m"], rng.randint(0, 3))
            }
        return "plain"

    def data(self, depth):
        """Application data."""

        rng = self.rng
        out = {}
        for key in rng.sample(["a", "b", "c", "d", "e"], rng.randint(1, 4)):
            if depth and rng.random() < 0.4:
                out[key] = self.data(depth - 1)
            else:
                out[key] = rng.choice([1, 2.5, "text", [1, 2], True])
        return out

    def item(self, kind, factory, index):
        """Describe something to create."""

        rng, case = self.rng, self.case
        name = f"{kind[:2]}{index}"
        out = {"factory": rng.choice([factory, SNAKE[factory]])}
        if kind != "servers":
            out["name"] = name
        if kind in ("clients", "servers"):
            if rng.random() < 0.6:
                out["args"] = [
                    self.value() for _ in range(rng.randint(0, 3))
                ]
                if kind == "clients" and self.ports and rng.random() < 0.5:
                    case.event("port_references")
                    out["args"].append(
                        "ws://localhost:$" + rng.choice(self.ports)["name"]
                    )
            if rng.random() < 0.6:
                out["kwargs"] = {
                    k: self.value() for k in rng.sample(
                        ["host", "port", "flag"], rng.randint(0, 3)
                    )
                }
                if kind == "clients" and rng.random() < 0.4:
                    out["kwargs"]["remote_addr"] = [
                        "localhost", self.value(0)
                    ]
            if kind == "clients" and rng.random() < 0.4:
                case.event("deferred")
                out["defer"] = True
        else:
            if rng.random() < 0.6:
                out["config"] = self.data(1)
        if kind == "tasks":
            if rng.random() < 0.7:
                out["period_s"] = rng.choice([0.5, 2.0, 1, 10.0])
            if rng.random() < 0.4:
                out["average_depth"] = rng.choice([1, 5, 20])
        if kind == "processes":
            out["program"] = f"pkg.mod.{name}"
        if kind in ("clients", "tasks", "processes") and rng.random() < 0.4:
            out["markdown"] = f"# {name}"
        return out

    def stages(self, kind, limit):
        """Describe application methods."""

        rng = self.rng
        base = 0 if kind == "app" else 5
        names = [f"app{base + i}" for i in range(rng.randint(0, limit))]
        out = []
        for name in names:
            if out and rng.random() < 0.4:
                out[-1].append(name)
            else:
                out.append([name])
        self.case.event("apps" if kind == "app" else "inits", len(names))
        return out

    def app_data(self, stages):
        """Write application methods down in one of several ways."""

        rng = self.rng
        out = []
        for stage in stages:
            paths = [f"{MODULE}.{x}" for x in stage]
            if len(paths) == 1 and rng.random() < 0.6:
                out.append(paths[0])
            else:
                out.append(paths)
        if len(out) == 1 and isinstance(out[0], str) and rng.random() < 0.5:
            return out[0]
        return out

    def build(self):
        """Create the complete document."""

        out = {}
        for key, items in self.items.items():
            if items:
                out[key] = items
        if self.factories:
            out["factories"] = self.factories
        if self.ports:
            out["ports"] = self.ports
        if self.overrides:
            out["port_overrides"] = self.overrides
        if self.apps:
            out["app"] = self.app_data(self.apps)
        if self.inits:
            out["init"] = self.app_data(self.inits)
        if self.config is not None:
            out["config"] = self.config
        return copy.deepcopy(out)


def free_port(kind):
    """Find a free port."""

    with socket.socket(
        socket.AF_INET,
        socket.SOCK_STREAM if kind == "tcp" else socket.SOCK_DGRAM,
    ) as sock:
        sock.bind(("127.0.0.1", 0))
        return sock.getsockname()[1]


def spread(case, rng, data, root, count):
    """
    Spread a document over files; returns the files to load and the data an
    application should see.
    """

    pieces = [{} for _ in range(count)]
    for key, value in data.items():
        if key in ("app", "init"):
            rng.choice(pieces)[key] = value
        elif isinstance(value, list):
            for item in value:
                rng.choice(pieces).setdefault(key, []).append(item)
        elif key == "port_overrides":
            for name, port in value.items():
                rng.choice(pieces).setdefault(key, {})[name] = port
        else:
            # Application data: pieces overlap, the first one wins.
            case.event("merged_data")
            for name, item in value.items():
                owners = rng.sample(range(count), rng.choice([1, 1, count]))
                for owner in owners:
                    pieces[owner].setdefault(key, {})[name] = twist(
                        rng, item, owner
                    )

    # Arrange pieces: some are included by others.
    suffix = next(UNIQUE)
    names = [
        f"file{suffix}_{i}.{rng.choice(['yaml', 'json'])}"
        for i in range(count)
    ]
    parents = [None]
    for i in range(1, count):
        parents.append(rng.choice([None, rng.randrange(i)]))
    children = {
        i: [j for j in range(count) if parents[j] == i] for i in range(count)
    }
    for i, piece in enumerate(pieces):
        full = dict(piece)
        if children[i]:
            full["includes"] = [names[j] for j in children[i]]
        if rng.random() < 0.5:
            full = dict(rng.sample(list(full.items()), len(full)))
        # Every JSON document is also a YAML document.
        (root / names[i]).write_text(json.dumps(full, indent=2))
        case.event("files")
    tops = [i for i in range(count) if parents[i] is None]

    def collect(index):
        result = copy.deepcopy(pieces[index])
        for child in children[index]:
            merge(result, collect(child))
        return result

    merged = {}
    for index in tops:
        merge(merged, collect(index))
    return [root / names[i] for i in tops], merged


def twist(rng, item, owner):
    """Create a different version of application data."""

    if isinstance(item, dict):
        out = {
            k: twist(rng, v, owner) for k, v in item.items()
            if rng.random() < 0.8
        }
        out[f"only{owner}"] = owner
        return out
    if isinstance(item, list):
        return item + [owner]
    if isinstance(item, str):
        return f"{item}{owner}"
    if isinstance(item, bool):
        return item
    return type(item)(item + owner)


def merge(left, right):
    """Merge documents: lists are combined, existing values are kept."""

    for key, value in right.items():
        if key not in left:
            left[key] = value
        elif isinstance(left[key], dict):
            merge(left[key], value)
        elif isinstance(left[key], list) and left[key] != value:
            left[key].extend(value)


def resolve(value, ports):
    """Resolve port references."""

    if isinstance(value, str):
        if value.startswith("$") and value[1:] in ports:
            return ports[value[1:]]
        return value
    if isinstance(value, list):
        return [resolve(x, ports) for x in value]
    if isinstance(value, dict):
        return {resolve(k, ports): resolve(v, ports)
                for k, v in value.items()}
    return value


def resolve_arg(value, ports):
    """Resolve a client's argument."""

    value = resolve(value, ports)
    if isinstance(value, str):
        value = ":".join(str(resolve(x, ports)) for x in value.split(":"))
    return value


def class_name(name):
    """Get a factory's class name."""
    for key, snake in SNAKE.items():
        if name in (key, snake):
            return key
    raise KeyError(name)


def expectations(data, ports):
    """What factories should be asked to create."""

    out = {"client": {}, "server": [], "task": {}, "struct": {},
           "process": {}, "factory": {}}
    for item in data.get("factories", []):
        name = item["name"].split(".")[-1]
        out["factory"].setdefault(name, item)
    for item in data.get("clients", []):
        name = class_name(item["factory"])
        kwargs = resolve(item.get("kwargs", {}), ports)
        if "remote_addr" in kwargs:
            kwargs["remote_addr"] = tuple(kwargs["remote_addr"])
        key = ".".join(
            out["factory"][name].get("namespaces", []) + [item["name"]]
        )
        out["client"][key] = (
            "client", name, item["name"],
            [resolve_arg(x, ports) for x in item.get("args", [])],
            kwargs, item.get("markdown"),
        )
    for item in data.get("servers", []):
        out["server"].append(
            ("server", class_name(item["factory"]),
             resolve(item.get("args", []), ports),
             resolve(item.get("kwargs", {}), ports))
        )
    for kind in ("task", "struct"):
        for item in data.get(kind + "s", []):
            out[kind][item["name"]] = item
    for item in data.get("processes", []):
        out["process"][item["name"]] = (
            "process", class_name(item["factory"]), item["name"],
            item.get("config", {}), item["program"], item.get("markdown"),
        )
    return out


def judge(case, data, arb, info, module):
    """Compare what was created with a document."""

    ports = dict(info.ports)
    case.equal(
        set(ports), {x["name"] for x in data.get("ports", [])}, "port-names"
    )
    seen = set()
    overrides = data.get("port_overrides", {})
    for item in data.get("ports", []):
        port = ports[item["name"]]
        if item["name"] in overrides:
            case.equal(port, overrides[item["name"]], "port-override")
        elif item.get("port"):
            case.equal(port, item["port"], "port-number")
        else:
            case.expect(
                isinstance(port, int) and 0 < port < 65536, "port-range",
                f"{port}",
            )
            case.expect(
                (item["type"], port) not in seen, "port-shared",
                f"{item['name']}: {port}",
            )
        seen.add((item["type"], port))

    want = expectations(data, ports)
    for name, item in want["factory"].items():
        if name in KINDS_OF["clients"]:
            got = [x for x in RECORD if x[:2] == ("factory", name)]
            case.equal(
                got,
                [("factory", name, resolve(item.get("kwargs", {}), ports))],
                "factory-arguments",
            )
    case.equal(
        {k: v.record for k, v in info.connections.items()}, want["client"],
        "clients",
    )
    clients = [x for x in RECORD if x[0] == "client"]
    case.equal(len(clients), len(want["client"]), "clients-created")
    case.equal(
        sorted(map(repr, (x for x in RECORD if x[0] == "server"))),
        sorted(map(repr, want["server"])), "servers",
    )
    tasks = {k: v for k, v in info.tasks.items() if isinstance(v, Task)}
    case.equal(set(tasks), set(want["task"]), "tasks")
    case.equal(
        len([x for x in RECORD if x[0] == "task"]), len(tasks),
        "tasks-created",
    )
    for name, item in want["task"].items():
        task = tasks[name]
        case.equal(
            type(task).__name__, class_name(item["factory"]) + "Kind",
            "task-factory", name,
        )
        case.equal(
            task.period_s.value, item.get("period_s", 1.0), "task-period",
            name,
        )
        case.equal(
            task.kwargs["average_depth"], item.get("average_depth", 10),
            "task-depth", name,
        )
        case.equal(task.config, item.get("config", {}), "task-config", name)
        if "markdown" in item:
            case.expect(
                task.markdown.startswith(item["markdown"]),
                "task-markdown", task.markdown,
            )
        case.expect(task.app is not None, "task-initialized", name)
    case.equal(set(info.structs), set(want["struct"]), "structs")
    for name, item in want["struct"].items():
        struct = info.structs[name]
        case.equal(
            type(struct).__name__, class_name(item["factory"]),
            "struct-factory", name,
        )
        case.equal(struct.name, name, "struct-name")
        case.equal(
            struct.config, item.get("config", {}), "struct-config", name
        )
    case.equal(
        {x[2]: x for x in RECORD if x[0] == "process"}, want["process"],
        "processes",
    )
    case.equal(
        {k: v[1] for k, v in info.peers.items()},
        {k: k for k in want["process"]}, "peers",
    )

    config = {k: v for k, v in info.config.items() if k != "root"}
    case.equal(config, data.get("config", {}), "application-data")
    case.equal(
        info.original_config()["config"], data.get("config", {}),
        "original-data",
    )
    case.equal(
        info.original_config().get("app"), data.get("app"), "original-app"
    )
    for key, value in data.get("config", {}).items():
        case.equal(info.config_param(key, None), value, "parameter", key)
    case.equal(info.config_param("missing", 17), 17, "missing-parameter")
    del arb, module


def stage_names(data):
    """Get stages of application names."""

    if data is None:
        data = []
    if isinstance(data, str):
        data = [data]
    return [
        [y.split(".")[-1] for y in ([x] if isinstance(x, str) else x)]
        for x in data
    ]


def order_of(case, data, wait):
    """Judge that configured applications ran in order."""

    want = stage_names(data.get("init")) + stage_names(data.get("app"))
    got = [x[1] for x in RECORD if x[0] == "app"]
    index = 0
    for stage in want:
        case.equal(
            sorted(got[index:index + len(stage)]), sorted(stage),
            "applications", f"{got}, expected {want}",
        )
        index += len(stage)
    case.equal(len(got), index, "applications", f"{got}, expected {want}")
    del wait


async def drive(case, rng, arb, data, module, wait):
    """Run what was loaded."""

    stages = stage_names(data.get("init")) + stage_names(data.get("app"))
    loop = asyncio.get_running_loop()
    infos = module.state.setdefault("infos", [])
    arg = None
    if not data.get("app") and not wait:
        async def only(info):
            infos.append(info)
            return 0
        arg = only
    elif not stages:
        arg = None
    start = loop.time()
    handle = loop.call_later(50.0, arb.stop_sig.set)
    case.equal(await arb.app(arg), 0, "result")
    handle.cancel()
    took = loop.time() - start
    if wait:
        case.event("waiting")
        case.expect(took > 45.0, "not-waited", f"{took}")
    else:
        case.expect(took < 45.0, "waited", f"{took}")
    if infos:
        judge(case, data, arb, infos[0], module)
    order_of(case, data, wait)
    del rng


def run_load(case):
    """Load files."""

    rng = case.rng
    document = Document(case)
    data = document.build()
    case.event("documents")
    case.distinct(json.dumps(data, sort_keys=True, default=str))
    root = case.scratch
    del RECORD[:]
    module = make_module()

    built = rng.random() < 0.3
    if built:
        data["config_builders"] = [f"{MODULE}.builder"]
        names = [x["name"].split(".")[-1] for x in data.get("factories", [])]
        if "Delta" not in names:
            data.setdefault("factories", []).append(
                {"name": f"{MODULE}.Delta"}
            )
    if data.get("factories") and rng.random() < 0.2:
        # Factories may be listed more than once.
        data["factories"].append(
            copy.deepcopy(data["factories"][0])
        )
    extra = None
    if rng.random() < 0.3:
        # Modules can be found next to configuration files.
        case.event("modules")
        extra = f"verif_c23_local{next(UNIQUE)}"
        (root / f"{extra}.py").write_text(
            f"from {MODULE} import app7\n", encoding="utf-8"
        )
        if isinstance(data.get("app"), str):
            data["app"] = [data["app"]]
        data.setdefault("app", []).append(f"{extra}.app7")

    paths, merged = spread(case, rng, data, root, rng.randint(1, 4))
    if rng.random() < 0.3:
        # Files are only loaded once.
        again = paths[0]
        if rng.random() < 0.6:
            # The same file, spelled differently.
            (root / "sub").mkdir(exist_ok=True)
            again = root / "sub" / ".." / again.name
        paths.append(again)
    if built:
        case.event("builders")
        merged.setdefault("tasks", []).append(
            {"name": "built", "factory": "delta", "period_s": 0.5,
             "average_depth": 4}
        )
    wait = rng.random() < 0.3
    given = rng.choice([list, tuple, iter])(
        [rng.choice([str, lambda x: x])(x) for x in paths]
    )

    async def main():
        arb = ConnectionArbiter(logger=LOG)
        await arb.load_configs(given, wait_for_stop=wait)
        await drive(case, rng, arb, merged, module, wait)

    before = list(sys.path)
    try:
        vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)
    finally:
        sys.path[:] = before
        sys.modules.pop(extra, None)


def run_direct(case):
    """Process a configuration object."""

    rng = case.rng
    document = Document(case)
    data = document.build()
    case.event("direct")
    case.distinct(json.dumps(data, sort_keys=True, default=str))
    del RECORD[:]
    module = make_module()
    wait = rng.random() < 0.3

    async def main():
        arb = ConnectionArbiter(logger=LOG)
        given = copy.deepcopy(data)
        for item in given.get("clients", []):
            item.setdefault("defer", False)
        await arb.process_config(
            ConnectionArbiterConfig(data=given), wait_for_stop=wait
        )
        if "config" not in data:
            arb._config["root"] = given  # pylint: disable=protected-access
        await drive(case, rng, arb, data, module, wait)

    vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)


def run_ports(case):
    """Many ports that aren't chosen."""

    rng = case.rng
    case.event("many_ports")
    kinds = rng.choice([["tcp"], ["udp"], ["tcp", "udp"]])
    ports = [
        {"name": f"p{i}", "type": rng.choice(kinds)}
        for i in range(rng.randint(60, 150))
    ]
    config = ConnectionArbiterConfig(data={"ports": ports})
    seen = set()
    for item in ports:
        case.event("ports")
        port = config.ports[item["name"]]
        case.expect(
            (item["type"], port) not in seen, "port-shared", f"{port}"
        )
        seen.add((item["type"], port))
    case.distinct(len(seen))


def break_unknown(rng, data, root):
    kind = rng.choice(list(KINDS_OF))
    item = {"name": "extra", "factory": rng.choice(["Nothing", "nothing"])}
    if kind == "servers":
        del item["name"]
    if kind == "processes":
        item["program"] = "a.b"
    data.setdefault(kind, []).append(item)
    return kind


def break_duplicate(rng, data, root):
    kinds = [
        k for k in ("clients", "tasks", "structs", "processes")
        if data.get(k)
    ]
    if not kinds:
        return break_unknown(rng, data, root)
    kind = rng.choice(kinds)
    item = copy.deepcopy(rng.choice(data[kind]))
    if kind == "clients":
        item["defer"] = not item.get("defer", False)
    data[kind].append(item)
    return kind


def break_required(rng, data, root):
    kinds = [k for k in KINDS_OF if data.get(k)]
    if not kinds:
        return break_unknown(rng, data, root)
    kind = rng.choice(kinds)
    keys = ["factory"] + ([] if kind == "servers" else ["name"])
    if kind == "processes":
        keys.append("program")
    key = rng.choice(keys)
    del rng.choice(data[kind])[key]
    return kind, key


def break_period(rng, data, root):
    factories = data.setdefault("factories", [])
    if not any(x["name"].endswith(".Delta") for x in factories):
        factories.append({"name": f"{MODULE}.Delta"})
    data.setdefault("tasks", []).append(
        {"name": "extra", "factory": "delta",
         "period_s": rng.choice([0.0, -1.0, "fast"])}
    )


def break_key(rng, data, root):
    data["unknown"] = rng.choice([1, [], {}])


def break_factory(rng, data, root):
    data.setdefault("factories", []).append(
        {"name": rng.choice([
            f"{MODULE}.Missing", "verif_c23_missing.Alpha", "Alpha",
        ])}
    )


def break_kind(rng, data, root):
    data.setdefault("factories", []).append(
        {"name": rng.choice([f"{MODULE}.number", "builtins.list"])}
    )


def break_app(rng, data, root):
    data[rng.choice(["app", "init"])] = rng.choice(
        [f"{MODULE}.missing", ["verif_c23_missing.app"],
         [[f"{MODULE}.app0", f"{MODULE}.missing"]]]
    )


def break_port(rng, data, root):
    data.setdefault("ports", []).append(
        rng.choice([
            {"name": "extra", "type": "sctp"},
            {"name": "extra", "type": "tcp", "port": 65536},
            {"type": "tcp"}, {"name": "extra"},
            {"name": "extra", "type": "tcp", "port": -1},
        ])
    )


def break_taken(rng, data, root):
    sock = socket.socket()
    sock.bind(("127.0.0.1", 0))
    sock.listen()
    data.setdefault("ports", []).append(
        {"name": "extra", "type": "tcp", "host": "127.0.0.1",
         "port": sock.getsockname()[1]}
    )
    return sock


def break_include(rng, data, root):
    data["includes"] = ["missing.yaml"]


ERRORS = [break_unknown, break_unknown, break_duplicate, break_duplicate,
          break_duplicate, break_required, break_period, break_key,
          break_factory, break_kind, break_app, break_port, break_taken,
          break_include, None, "syntax"]


def run_refused(case):
    """Documents with an error."""

    rng = case.rng
    document = Document(case)
    data = document.build()
    del RECORD[:]
    make_module()
    error = rng.choice(ERRORS)
    what = None
    if error not in (None, "syntax"):
        what = error(rng, data, case.scratch)
    path = case.scratch / "config.json"
    if error is not None:
        path.write_text(json.dumps(data))
    if error == "syntax":
        path.write_text(json.dumps(data)[:-1] + ",")
    label = getattr(error, "__name__", str(error))
    case.distinct((label, str(what)[:9], json.dumps(data, default=str)))
    case.event("errors", label.startswith("break"))

    async def main():
        arb = ConnectionArbiter(logger=LOG)
        try:
            await arb.load_configs([path])
        except Exception:  # pylint: disable=broad-except
            case.event("refused")
        else:
            case.fail("accepted", f"{label} {what}: {data}")
        case.expect(
            not any(x[0] in ("app", "process") for x in RECORD),
            "started", f"{RECORD}",
        )
        arb.stop_sig.set()
        await asyncio.sleep(0.1)

    before = list(sys.path)
    try:
        vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)
    finally:
        sys.path[:] = before
        if hasattr(what, "close"):
            what.close()


def run_search(case):
    """Configurations that are part of packages."""

    rng = case.rng
    root = case.scratch
    del RECORD[:]
    make_module()
    number = next(UNIQUE)

    class Arbiter(ConnectionArbiter):
        """Has its own search path."""

        search_packages = []

    want = []
    packages = []
    for i in range(rng.randint(1, 4)):
        package = f"verif_c23_pkg{number}_{i}"
        packages.append(package)
        (root / package / "data").mkdir(parents=True)
        (root / package / "__init__.py").write_text("")
        if rng.random() < 0.7:
            (root / package / "data" / "common.yaml").write_text(
                json.dumps({"config": {"owner": package}})
            )
            has = True
        else:
            has = False
        front = rng.random() < 0.5
        Arbiter.add_search_package(package.replace("_", "-"), front=front)
        Arbiter.add_search_package(package, front=not front)
        if front:
            want.insert(0, (package, has))
        else:
            want.append((package, has))
    case.event("searches")
    case.distinct((tuple(x[1] for x in want),
                   tuple(packages.index(x[0]) for x in want)))
    owners = [x for x, has in want if has]

    async def main():
        arb = Arbiter(logger=LOG)
        found = []

        async def app(info):
            found.append(info.config_param("owner", None))
            return 0

        try:
            await arb.load_configs(["common"])
        except AssertionError:
            case.expect(not owners, "not-found", f"{want}")
            return
        case.equal(await arb.app(app), 0, "result")
        case.equal(found, owners[:1], "search-order", f"{want}")

    before = list(sys.path)
    sys.path.insert(0, str(root))
    try:
        vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)
    finally:
        sys.path[:] = before
        for package in packages:
            sys.modules.pop(package, None)


KINDS = {
    "load": (run_load, 320, 9000),
    "direct": (run_direct, 80, 2000),
    "ports": (run_ports, 60, 300),
    "refused": (run_refused, 300, 6000),
    "search": (run_search, 40, 600),
}
