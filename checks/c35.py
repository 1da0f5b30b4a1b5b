"""C35: what a peer is asked for over JSON is what it does locally."""

import asyncio
import json
import logging
import os
import sys

from lib import envs, names, vloop

from runtimepy.channel.environment.command import GLOBAL
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.net.arbiter.tcp.json import (
    TcpJsonMessageConnection,
    UdpJsonMessageConnection,
)
from vcorelib.dict import MergeStrategy
from vcorelib.io import ARBITER

PROPERTY = "C35"
RULE = (
    "commands with the remote flag entered on one end of a real TCP or UDP "
    "connection, compared - changes in order, values, results - with a twin "
    "environment that the same commands are entered into directly; file "
    "requests about generated directory trees, packages and include chains, "
    "compared with where the file was put and what it contains; non-trivial "
    "= distinct command sequence or request"
)
REQUIRED = {"remote_commands": 2000, "remote_changes": 300, "refused": 200,
            "forced": 200, "named_envs": 300, "default_env": 300,
            "negative": 60, "custom": 60, "unknown_env": 80, "reports": 1500,
            "requests": 800, "found": 300, "absent": 100, "decoded": 200,
            "undecodable": 30, "merged": 60, "replaced": 30, "packages": 60,
            "uris": 30, "cwd": 40, "relative": 60, "searched": 150,
            "refused_overwrite": 10, "concurrent": 100}

LOG = logging.getLogger("verif.c35")
LOG.propagate = False


def make_logger(name):
    """A logger nobody else uses."""
    log = logging.Logger(name, logging.DEBUG)
    log.propagate = False
    return log


class Collect(logging.Handler):
    """Keeps what's logged."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.text = []

    def emit(self, record):
        try:
            self.text.append(record.getMessage())
        except Exception as exc:  # pylint: disable=broad-exception-caught
            self.text.append(repr(exc))


class Mixin:
    """Channels of an endpoint's own environment."""

    customs = 0

    def setup(self):
        """Add some channels and a custom command."""

        own_channels(self.env)
        self.ran = []

        async def poke(args, channel):
            """A custom command."""
            self.ran.append(tuple(args.extra))

        self._setup_async_commands(poke)


OWN = ["own_int", "own_float", "own_bool", "own_fixed"]


def own_channels(env):
    """Channels every endpoint has."""
    env.int_channel("own_int", kind="int32", commandable=True)
    env.float_channel("own_float", kind="double", commandable=True)
    env.bool_channel("own_bool", commandable=True)
    env.int_channel("own_fixed", kind="int32")


class TcpEnd(Mixin, TcpJsonMessageConnection):
    """A TCP endpoint."""


class UdpEnd(Mixin, UdpJsonMessageConnection):
    """A UDP endpoint."""


def watch(env, history):
    """Record every change of an environment."""

    def observe(name, prim):
        prim.register_callback(
            lambda _, __: history.append((name, repr(env.value(name))))
        )

    for name in env.names:
        observe(name, env.field_or_channel(name).raw)


def values(env, only=None):
    """An environment's values in a comparable form."""
    return {
        name: repr(env.value(name))
        for name in (only if only is not None else env.names)
    }


def twin(case):
    """An environment and its exact twin."""

    state = case.rng.getstate()
    out = []
    for _ in range(2):
        case.rng.setstate(state)
        model = envs.build(case, size=8)
        envs.randomize(case, model)
        out.append(model)
    return out


def command(case, model):
    """A random command's words (without remote flags)."""

    rng = case.rng
    if model is None:
        name = rng.choice(OWN + ["nothing"])
        spec = None
    else:
        # (These would be options.)
        name = rng.choice([x for x in model.specs if x[0] != "-"] or ["x"])
        spec = model.specs.get(name)
        if rng.random() < 0.05:
            name += "x"
    kind = rng.choice(["set", "set", "set", "toggle", "get"])
    flags = []
    if rng.random() < 0.4:
        flags = [rng.choice(["-f", "--force"])]
        case.event("forced")
    extra = []
    if kind == "set":
        roll = rng.random()
        if spec is not None and spec.enum and roll < 0.6:
            extra = [rng.choice(list(model.enums[spec.enum]["items"]))]
        elif roll < 0.2:
            extra = [rng.choice(["true", "false", "on", "x", "1.5", "0x10"])]
        elif roll < 0.35:
            case.event("negative")
            extra = [rng.choice(["-1", "-2.5", "-1e3", "-1.5e-2"])]
        elif roll < 0.4:
            extra = ["3", "4"]
        elif roll < 0.45:
            extra = []
        else:
            extra = [str(rng.choice([0, 1, 2, 5, 100, 0.5, 1e-3, 70000]))]
    return kind, flags, name, extra


def words(rng, kind, flags, name, extra, more=()):
    """One way to write a command."""

    opts = [*flags]
    for item in more:
        opts += item
    # Values that look like options have to follow '--'.
    if any(x.startswith("-") for x in extra):
        return [kind, *opts, "--", name, *extra]
    if more and rng.random() < 0.3:
        return [kind, name, *extra, *opts] if rng.random() < 0.5 else [
            *opts, kind, name, *extra]
    return [kind, *opts, name, *extra]


async def pair(stack, rng):
    """A connected pair of endpoints."""

    if rng.random() < 0.75:
        return await stack.enter_async_context(TcpEnd.create_pair())
    return await UdpEnd.create_pair()


def remote(case):
    """Remote commands."""

    from contextlib import AsyncExitStack

    rng = case.rng
    served, reference = twin(case)
    env_name = "verif_" + names.word(rng, ())
    logger = make_logger("commands")
    GLOBAL[env_name] = ChannelCommandProcessor(served.env, logger)

    async def main():
        async with AsyncExitStack() as stack:
            left, right = await pair(stack, rng)
            for conn in (left, right):
                conn.setup()
            tasks = [asyncio.ensure_future(x.process())
                     for x in (left, right)]
            for conn in (left, right):
                await asyncio.wait_for(conn.initialized.wait(), 30)
            await asyncio.sleep(0.1)
            collect = Collect()
            left.logger.addHandler(collect)
            level = left.logger.level
            left.logger.setLevel(logging.INFO)
            try:
                await session(left, right, collect)
            finally:
                left.logger.setLevel(level)
                left.logger.removeHandler(collect)
                for conn in (left, right):
                    conn.disable("done")
                await asyncio.wait(tasks)

    async def session(left, right, collect):
        plain = type(served.env)()
        own_channels(plain)
        own = ChannelCommandProcessor(plain, logger)
        direct = ChannelCommandProcessor(reference.env, logger)

        got, want = [], []
        watch(served.env, got)
        watch(reference.env, want)
        own_got, own_want = [], []
        for name in OWN:
            prim = right.env.field_or_channel(name).raw
            prim.register_callback(
                lambda _, __, n=name: own_got.append(
                    (n, repr(right.env.value(n))))
            )
            prim = plain.field_or_channel(name).raw
            prim.register_callback(
                lambda _, __, n=name: own_want.append(
                    (n, repr(plain.value(n))))
            )
        here = values(left.env, OWN)
        poked = []
        trace = []

        for _ in range(rng.randrange(2, 10)):
            results = []
            entered = []
            for _ in range(rng.randrange(1, 5)):
                flag = rng.choice(["-r", "--remote"])
                roll = rng.random()
                if roll < 0.06:
                    serial = str(len(poked))
                    more = [serial] + ["x"] * rng.randrange(3)
                    line = f"custom {flag} poke {' '.join(more)}"
                    poked.append(tuple(more))
                    results.append("None")
                    case.event("custom")
                    case.expect(bool(left.command.command(line)),
                                "not-queued", line)
                    entered.append(line)
                    case.event("remote_commands")
                    continue
                if roll < 0.1:
                    # Nothing can happen.
                    name = rng.choice(OWN + list(served.specs))
                    line = (f"{rng.choice(['set', 'toggle'])} {flag} -f "
                            f"-e no{env_name} -- {name} 1")
                    results.append("(failure)")
                    case.event("unknown_env")
                    case.expect(bool(left.command.command(line)),
                                "not-queued", line)
                    entered.append(line)
                    case.event("remote_commands")
                    continue
                if roll < 0.55:
                    parts = command(case, reference)
                    other = direct
                    more = [[flag], [rng.choice(["-e", "--env"]), env_name]]
                    case.event("named_envs")
                else:
                    parts = command(case, None)
                    other = own
                    more = [[flag]]
                    if rng.random() < 0.3:
                        more.append(["-e", "default"])
                    case.event("default_env")
                line = " ".join(words(rng, *parts, more))
                plain_line = " ".join(
                    words(rng, parts[0], parts[1], parts[2], parts[3]))
                result = other.command(plain_line)
                results.append(str(result))
                if not result:
                    case.event("refused")
                accepted = left.command.command(line)
                case.expect(bool(accepted), "not-queued",
                            f"{line}: {accepted}")
                entered.append(line)
                case.event("remote_commands")
            collect.text.clear()
            await left.process_command_queue()
            label = str(entered)[:300]
            for name in list(reference.specs):
                case.equal(
                    repr(served.env.value(name)),
                    repr(reference.env.value(name)), "remote-value", label)
            case.equal(got, want, "remote-history", label)
            case.equal(own_got, own_want, "remote-own-history", label)
            case.equal(values(right.env, OWN), values(plain),
                       "remote-own-value", label)
            case.equal(values(left.env, OWN), here, "changed-locally", label)
            # Results are reported in order.
            left_over = list(collect.text)
            for result, line in zip(results, entered):
                if result == "None":
                    continue
                while left_over and result not in left_over[0]:
                    left_over.pop(0)
                case.expect(bool(left_over), "result-not-reported",
                            f"{line}: {result} {collect.text}")
                left_over.pop(0)
                case.event("reports")
            await right.process_command_queue()
            case.equal(right.ran, poked, "remote-custom", label)
            case.equal(left.ran, [], "local-custom", label)
            trace.append(tuple(entered))
        case.event("remote_changes", len(got) + len(own_got))
        case.distinct("remote", tuple(trace))
        case.sample(str(trace[0])[:200])

    try:
        vloop.run(main(), limit=2000)
    finally:
        GLOBAL.pop(env_name, None)


class Tree:
    """Files in several directories."""

    def __init__(self, case):
        self.case = case
        rng = case.rng
        self.root = case.scratch
        self.serial = 0
        self.dirs = []
        for i in range(rng.randrange(2, 5)):
            path = self.root / f"dir{i}"
            path.mkdir()
            self.dirs.append(path)
        self.package = f"verif_pkg_{os.getpid()}_{case.index}"
        self.package_dirs = {}
        base = self.root / "packages" / self.package
        for sub in ("data", "other"):
            (base / sub).mkdir(parents=True)
            self.package_dirs[sub] = base / sub
        (base / "__init__.py").write_text("")
        self.places = self.dirs + list(self.package_dirs.values())
        self.names = [
            f"n{i}.{ext}" for i, ext in enumerate(
                ["json", "yaml", "json", "yaml", "txt", "json"]
            )
        ] + ["sub/deep.json"]
        for place in self.places:
            (place / "sub").mkdir()
            for name in self.names:
                if rng.random() < 0.45:
                    self.write(place / name)

    def write(self, path):
        """Write a file, possibly one that includes others."""

        rng = self.case.rng
        self.serial += 1
        data = {f"only{self.serial}": self.serial, "where": str(path),
                "shared": {f"s{rng.randrange(3)}": self.serial,
                           "list": [self.serial]}}
        if path.suffix != ".txt":
            key = rng.choice(["includes", "includes", "more"])
            if rng.random() < 0.6:
                extra = []
                for _ in range(rng.randrange(1, 3)):
                    self.serial += 1
                    name = f"inc{self.serial}.json"
                    target = path.parent / name
                    body = {f"inc{self.serial}": True,
                            "shared": {f"s{rng.randrange(3)}": -self.serial,
                                       "list": [-self.serial]}}
                    if rng.random() < 0.3:
                        body["where"] = "included"
                    target.write_text(json.dumps(body))
                    extra.append(name)
                data[key] = extra
        text = json.dumps(data)
        if path.suffix == ".txt":
            text = "just text"
        elif rng.random() < 0.07:
            text = "{ not valid: ["
        path.write_text(text)


def find(places, name):
    """The first place that has a file."""

    for place in places:
        path = place / name
        if path.exists():
            return path
    return None


def make_request(case, tree):
    """A request and what has to be found."""

    rng = case.rng
    request = {}
    name = rng.choice(tree.names + ["nothing.json"])
    places = []
    roll = rng.random()
    if roll < 0.1:
        # An absolute path.
        path = rng.choice(tree.places) / name
        request["path"] = str(path)
        return request, path if path.exists() else None
    if roll < 0.2:
        sub = rng.choice(["data", "other"])
        request["path"] = f"package://{tree.package}/{name}"
        if sub != "data" or rng.random() < 0.3:
            request["package_subdir"] = sub
        case.event("uris")
        return request, find([tree.package_dirs[sub]], name)
    parts = name.split("/")
    request["path"] = parts[0]
    if len(parts) > 1:
        if rng.random() < 0.5:
            request["parts"] = parts[1:]
        else:
            request["path"] = name
    if rng.random() < 0.35:
        request["package"] = tree.package
        sub = "data"
        if rng.random() < 0.5:
            sub = "other"
            request["package_subdir"] = sub
        places.append(tree.package_dirs[sub])
        case.event("packages")
    if rng.random() < 0.5:
        chosen = rng.sample(tree.dirs, rng.randrange(1, len(tree.dirs) + 1))
        request["search_paths"] = [str(x) for x in chosen]
        places += chosen
        case.event("searched")
    if rng.random() < 0.25:
        request["include_cwd"] = True
        places.append(tree.cwd)
        case.event("cwd")
    elif rng.random() < 0.2:
        request["include_cwd"] = False
    if rng.random() < 0.3:
        where = rng.choice(tree.dirs)
        request["relative_to"] = str(
            where if rng.random() < 0.5 else where / "some_file.json")
        places.append(where)
        case.event("relative")
    return request, find(places, name)


def decode_options(case, request):
    """Ask for a file's contents, too."""

    rng = case.rng
    request["decode"] = True
    options = {"includes_key": "includes", "expect_overwrite": False,
               "strategy": MergeStrategy.RECURSIVE}
    if rng.random() < 0.4:
        options["includes_key"] = request["includes_key"] = "more"
    if rng.random() < 0.4:
        options["expect_overwrite"] = request["expect_overwrite"] = True
    if rng.random() < 0.4:
        request["update"] = True
        options["strategy"] = MergeStrategy.UPDATE
    return options


def verify_decoded(case, request, path, got, options):
    """Compare decoded content."""

    if path is None:
        case.equal((got["success"], got["data"]), (False, {}),
                   "decoded-nothing", request)
        return
    logger = make_logger("decode")
    logger.setLevel(logging.CRITICAL + 1)
    want = ARBITER.decode(path, logger=logger, **options)
    case.equal(got["success"], want.success, "decode-success", request)
    case.equal(got["data"], want.data, "decode-data", request)
    if not want.success:
        case.event("undecodable")
        return
    case.event("decoded")
    case.expect(isinstance(got.get("time_ns"), int) and got["time_ns"] >= 0,
                "decode-time", str(got.get("time_ns")))
    other = dict(options)
    flip = {MergeStrategy.UPDATE: MergeStrategy.RECURSIVE,
            MergeStrategy.RECURSIVE: MergeStrategy.UPDATE}
    other["strategy"] = flip[options["strategy"]]
    if ARBITER.decode(path, logger=logger, **other).data != want.data:
        case.event("replaced" if options["strategy"] is MergeStrategy.UPDATE
                   else "merged")
    other = {**options, "expect_overwrite": not options["expect_overwrite"]}
    if ARBITER.decode(path, logger=logger, **other).data != want.data:
        case.event("refused_overwrite")


def files(case):
    """File requests."""

    from contextlib import AsyncExitStack

    rng = case.rng
    tree = Tree(case)
    before = os.getcwd()
    tree.cwd = rng.choice(tree.dirs)
    sys.path.insert(0, str(tree.root / "packages"))
    os.chdir(tree.cwd)

    async def ask(left):
        request, path = make_request(case, tree)
        options = None
        if rng.random() < 0.65:
            options = decode_options(case, request)
        elif rng.random() < 0.3:
            request["decode"] = False
        if rng.random() < 0.5:
            request["is_request"] = True
        case.event("requests")
        case.distinct("files", json.dumps(request, sort_keys=True).replace(
            str(tree.root), ""), path is not None)
        sent = json.dumps(request)
        answer = (await left.wait_json({"find_file": request}))["find_file"]
        case.equal(json.dumps(request), sent, "request-changed")
        case.equal(answer["is_request"], False, "is-request", request)
        if path is None:
            case.event("absent")
            case.equal(answer["path"], None, "found-nothing", request)
        else:
            case.event("found")
            case.expect(answer["path"] is not None, "not-found",
                        f"{request} {path}")
            case.expect(os.path.samefile(answer["path"], path), "wrong-file",
                        f"{request} {answer['path']} {path}")
        case.equal("decoded" in answer, options is not None, "decoded",
                   request)
        if options is not None:
            verify_decoded(case, request, path, answer["decoded"], options)

    async def main():
        async with AsyncExitStack() as stack:
            left, right = await pair(stack, rng)
            tasks = [asyncio.ensure_future(x.process())
                     for x in (left, right)]
            for conn in (left, right):
                await asyncio.wait_for(conn.initialized.wait(), 30)
            try:
                for _ in range(rng.randrange(2, 10)):
                    count = rng.choice([1, 1, 1, 3])
                    if count > 1:
                        case.event("concurrent")
                    await asyncio.gather(*(
                        ask(rng.choice([left, right])) for _ in range(count)))
            finally:
                for conn in (left, right):
                    conn.disable("done")
                await asyncio.wait(tasks)

    try:
        vloop.run(main(), limit=2000)
    finally:
        os.chdir(before)
        sys.path.remove(str(tree.root / "packages"))
        sys.modules.pop(tree.package, None)


KINDS = {
    "remote": (remote, 280, 5000),
    "files": (files, 280, 5000),
}
