"""C27: peer programs mirror channels and answer commands across the pipe."""

import asyncio
import contextlib
import json
import logging
import os
from pathlib import Path
import random
import signal
import sys

from lib import core, peers, vloop

from runtimepy.channel.environment.command import ENVIRONMENTS, clear_env

PROPERTY = "C27"
RULE = (
    "random environments on both sides of a pipe; the peer changes its "
    "channels while both sides send requests and commands at random times; "
    "in-process the pipe cuts the streams at random points and times, real "
    "child processes use real pipes; every change seen by the host is "
    "compared with the sequence of values the peer had, command results and "
    "effects with a model, requests with their own answers; hosts leave or "
    "vanish at random points; non-trivial = distinct workloads"
)
REQUIRED = {"pairs": 200, "children": 8, "mirrored": 800, "changes": 6000,
            "host_requests": 300, "child_requests": 300,
            "host_commands": 250, "child_commands": 250, "background": 40,
            "polls": 60, "left": 30, "junk": 8, "failed_main": 4,
            "before_exchange": 8, "custom": 30, "peer_custom": 15, "configs": 30}
VERIF = Path(__file__).resolve().parent.parent


class Gone(Exception):
    """The other side went away."""


class Stdin:
    """The parent's end of a pipe to a child's input."""

    def __init__(self, case, loop):
        self.case = case
        self.loop = loop
        self.reader, self.writer = os.pipe()
        os.set_blocking(self.writer, False)
        self.pending = bytearray()
        self.scheduled = False
        self.ending = False
        self.closed = False

    def write(self, data):
        """Queue data."""
        if not self.ending:
            self.pending += data
            self.schedule()

    def schedule(self):
        """Write some of it later."""
        if not self.scheduled and not self.closed:
            self.scheduled = True
            self.loop.call_later(
                self.case.rng.choice([0.0, 0.0, 0.001, 0.02]), self.pump
            )

    def pump(self):
        """Write some of it."""
        self.scheduled = False
        rng = self.case.rng
        if self.closed:
            return
        if self.pending:
            size = rng.choice([1, 3, 100, 5000, 1 << 20, 1 << 20])
            if len(self.pending) > 3000:
                size = max(size, 5000)
            try:
                count = os.write(self.writer, self.pending[:size])
            except BlockingIOError:
                count = 0
            except BrokenPipeError:
                count = len(self.pending)
            del self.pending[:count]
        if self.pending:
            self.schedule()
        elif self.ending:
            self.closed = True
            os.close(self.writer)

    def can_write_eof(self):
        """Pipes can."""
        return True

    def write_eof(self):
        """Close eventually."""
        if not self.ending:
            self.ending = True
            if not self.pending:
                self.closed = True
                os.close(self.writer)

    close = write_eof

    def is_closing(self):
        """Check if this is closing."""
        return self.ending


class Output:
    """One of a child's outputs."""

    def __init__(self, transport, fd):
        self.transport = transport
        self.fd = fd
        self.buffer = bytearray()

    def write(self, data):
        """Buffer data."""
        self.buffer += data
        return len(data)

    def flush(self):
        """Write what's buffered."""
        if self.transport.closed:
            raise BrokenPipeError("gone")
        self.transport.output(self.fd, bytes(self.buffer))
        self.buffer.clear()


class Holder:
    """Looks like a standard stream."""

    def __init__(self, buffer):
        self.buffer = buffer

    def write(self, text):
        """Write text."""
        self.buffer.write(text.encode())

    def flush(self):
        """Flush."""
        self.buffer.flush()


class Transport(asyncio.SubprocessTransport):
    """A subprocess that runs in this process."""

    def __init__(self, case, loop, protocol, start):
        super().__init__()
        self.case = case
        self.loop = loop
        self.stdin = Stdin(case, loop)
        self.log = []
        self.pending = 0
        self.scheduled = False
        self.code = None
        self.closed = False
        self.killed = False
        self.closes = 0
        self.patience = 0
        self.error = None
        self.protocol = protocol
        protocol.connection_made(self)
        self.task = loop.create_task(self.run(start))

    def get_pid(self):
        """A fake process."""
        return 4000000

    def get_returncode(self):
        """The status."""
        return self.code

    def get_pipe_transport(self, fd):
        """Only the input is of interest."""
        return self.stdin if fd == 0 else None

    def is_closing(self):
        """Check if this is closing."""
        return self.closed

    def output(self, fd, data):
        """The child has written something."""
        if data:
            self.log.append((fd, data))
            self.pending += len(data)
            if not self.scheduled:
                self.scheduled = True
                self.loop.call_later(
                    self.case.rng.choice([0.0, 0.0, 0.001, 0.008, 0.03]),
                    self.deliver,
                )

    def deliver(self, everything=False):
        """Deliver what was written up to some point."""

        self.scheduled = False
        rng = self.case.rng
        size = self.pending
        if not everything and rng.random() < 0.4 and size < 200000:
            size = rng.randint(1, max(1, size))
        parts = {1: bytearray(), 2: bytearray()}
        while size > 0 and self.log:
            fd, data = self.log[0]
            count = min(size, len(data))
            parts[fd] += data[:count]
            size -= count
            self.pending -= count
            if count == len(data):
                self.log.pop(0)
            else:
                self.log[0] = (fd, data[count:])
        for fd in rng.sample([1, 2], 2):
            data = bytes(parts[fd])
            while data and not self.closed:
                step = len(data) if rng.random() < 0.7 else rng.randint(
                    1, len(data)
                )
                self.case.event("chunks")
                self.protocol.pipe_data_received(fd, data[:step])
                data = data[step:]
        if self.log and not self.scheduled:
            self.scheduled = True
            self.loop.call_later(rng.choice([0.0, 0.002]), self.deliver)

    async def run(self, start):
        """Run the program."""

        reader = os.fdopen(self.stdin.reader, "rb")
        saved = sys.stdin, sys.stdout, sys.stderr

        def restore():
            sys.stdin, sys.stdout, sys.stderr = saved

        sys.stdin = Holder(reader)
        sys.stdout = Holder(Output(self, 1))
        sys.stderr = Holder(Output(self, 2))
        self.loop.call_soon(restore)
        try:
            await start()
            code = 0
        except asyncio.CancelledError:
            code = -9 if self.killed else 1
        except BaseException as exc:  # pylint: disable=broad-except
            self.error = exc
            code = 1
        restore()
        reader.close()
        self.deliver(True)
        if not self.closed:
            self.protocol.pipe_connection_lost(1, None)
            self.protocol.pipe_connection_lost(2, None)
        self.code = code
        self.protocol.process_exited()

    def close(self):
        """Kill the child."""
        self.stdin.write_eof()
        self.closes += 1
        if self.closes > self.patience:
            self.closed = True
            if self.code is None:
                self.killed = True
                self.task.cancel()

    kill = close
    terminate = close


class Patched:
    """Runs children in this process."""

    def __init__(self, case):
        self.case = case
        self.transports = []
        self.patience = 0

    def attach(self, kind, config, argv):
        """Children of the current loop run in-process."""

        loop = asyncio.get_running_loop()
        index = [0]

        async def subprocess_exec(factory, *args, **kwargs):
            del args, kwargs
            await asyncio.sleep(0)
            name, data = config[index[0]]
            index[0] += 1
            protocol = factory()
            transport = Transport(
                self.case, loop, protocol,
                lambda: kind().run(name, data, argv),
            )
            transport.patience = self.patience
            self.transports.append(transport)
            return transport, protocol

        loop.subprocess_exec = subprocess_exec


@contextlib.contextmanager
def quiet():
    """In one process, messages would be forwarded to themselves."""

    previous = logging.root.manager.disable
    handler = signal.getsignal(signal.SIGINT)
    handlers = list(logging.getLogger().handlers)
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        logging.disable(previous)
        signal.signal(signal.SIGINT, handler)
        logging.getLogger().handlers[:] = handlers


def configs(case, tag):
    """Configurations for both sides."""

    rng = case.rng
    host = {"name": f"h{tag}.host", "seed": rng.randrange(1 << 40)}
    child = {
        "seed": rng.randrange(1 << 40),
        "host": host,
        "changes": rng.choice([0, 5, 20, 60]),
        "asks": rng.choice([0, 3, 12, 25]),
        "extra": {"nested": [1, 2.5, None, "text", {"a": True}]},
    }
    return host, child


def same_channels(case, view, model, where):
    """The host's view has the same channels."""

    full = peers.make_full(model)
    names = sorted(full.specs)
    missing = [x for x in names if view.field_or_channel(x) is None]
    case.expect(not missing, "channels-missing", f"{where}: {missing}")
    for name in names:
        spec = full.specs[name]
        chan = view.field_or_channel(name)
        case.expect(
            chan.commandable == spec.commandable
            and (chan.raw.kind == full.env.field_or_channel(name).raw.kind),
            "channel-differs", f"{where}: {name}",
        )
    return names


async def settled(done, limit):
    """Wait until something is true."""
    loop = asyncio.get_running_loop()
    end = loop.time() + limit
    while not done() and loop.time() < end:
        await asyncio.sleep(0.01)
    return done()


async def interact(case, host, name, child_config, patience=3.0):
    """Use a peer that's running."""

    rng = case.rng
    host.begin()
    where = f"{name}"
    case.expect(host.peer is not None, "no-environment", where)
    case.expect(
        name + ".peer" in ENVIRONMENTS and name + ".host" in ENVIRONMENTS,
        "not-registered", where,
    )
    view = host.peer.env
    names = same_channels(case, view, child_config["seed"], where)
    watched = peers.Recorder(view, names)
    child_name = child_config["child_name"]

    commander = peers.Commander(host, child_config["seed"], child_name)
    before = host.struct.polls
    polls = 0

    async def more():
        nonlocal polls
        for _ in range(rng.choice([0, 2, 5])):
            if rng.random() < 0.5:
                number = rng.randint(0, 3)
                case.event("polls")
                host.send_poll(number)
                # It's passed back and forth.
                polls += number // 2 + 1
                state["mine"] += (number + 1) // 2
            else:
                case.event("custom")
                number = rng.randint(1, 4)
                command = f"custom poll {number}"
                if rng.random() < 0.5:
                    # The peer's commands aren't this side's.
                    case.event("peer_custom")
                    result = host.peer.command(command)
                else:
                    result = await host.channel_command(command)
                case.expect(result.success, "custom-refused", f"{result}")
                polls += number
            await asyncio.sleep(rng.choice([0.0, 0.02]))

    state = {"mine": 0, "config": None}
    if rng.random() < 0.6:
        case.event("configs")
        data = {"abc": [1, {"x": rng.randrange(1000)}]}
        await host.share_config({"config": data})
        state["config"] = data
        state["first"] = host.peer_config
        case.expect(
            host.peer_config_event.is_set(), "not-signaled", where
        )
    await asyncio.gather(
        host.ask(rng, rng.choice([3, 10, 25]), commander),
        host.change(rng, rng.choice([0, 10])), more(),
    )

    # Wait for the other side.
    async def finished():
        for _ in range(1200):
            got = await host.wait_json({"state": {"names": names}})
            got = got["state"]
            if got["counts"].get("done"):
                return got
            await asyncio.sleep(0.05)
        case.fail("never-done", f"{where}: {got['counts']}")

    got = await finished()
    await settled(host.outgoing_commands.empty, 10.0)
    await asyncio.sleep(0.3)
    got = (await host.wait_json({"state": {"names": names}}))["state"]
    case.expect(not got["problems"], "peer-problems",
                f"{where}: {got['problems'][:3]}")
    case.expect(not host.problems, "host-problems",
                f"{where}: {host.problems[:3]}")
    for item in peers.commandable(commander.model, child_config["seed"]):
        case.equal(
            got["values"][item], commander.model.get(item),
            "command-effect", f"{where}: {item}",
        )
    case.equal(got["counts"]["argv"], child_config.get("argv", []),
               "arguments")
    case.event("background", host.counts.get("background", 0)
               + got["counts"].get("background", 0))
    for kind in ("requests", "commands"):
        case.event("host_" + kind, host.counts.get(kind, 0))
        case.event("child_" + kind, got["counts"].get(kind, 0))
    case.event("changes", got["counts"].get("changes", 0))
    case.equal(got["polls"], polls, "polls", where)
    case.equal(host.struct.polls - before, state["mine"], "own-polls", where)

    # Configurations are exchanged by whoever starts.
    mine, theirs = state["config"], got["counts"].get("configs")
    case.expect(
        got["peer_config"] in (
            ([mine] if mine else [])
            + ([host.struct.config] if theirs else [])
            or [None]
        ), "shared-config", f"{got['peer_config']}",
    )
    case.expect(
        host.peer_config in (
            ([child_config["extra"]] if theirs else [])
            + ([child_config] if mine else []) or [None]
        ), "peer's-config", f"{host.peer_config}",
    )

    case.expect(
        "first" not in state or state["first"] == host.peer_config,
        "configuration-replaced", where,
    )

    # The view follows, every value is seen.
    if child_config.get("junk"):
        case.event("junk")
        watched.stop()
        return
    await settled(
        lambda: peers.current(view, names) == got["values"], patience
    )
    for item in names:
        case.event("mirrored")
        have = view.field_or_channel(item).raw.value
        case.equal(have, got["values"][item], "stale",
                   f"{where}: {item}")
        seen = watched.history[item]
        want = got["history"][item]
        # Changes made between exchanging environments and the start of the
        # stream may be seen at once.
        rest = len(seen) - 1
        case.expect(
            rest < len(want)
            and (not rest or seen[1:] == want[len(want) - rest:])
            and seen[0] in want[:len(want) - rest],
            "values-missed",
            f"{where}: {item}: saw {seen[-8:]} of {want[-8:]}",
        )
    watched.stop()


def make_child(case):
    """A new type of child."""
    del case

    class Child(peers.Child):
        """A child for one run."""

    return Child


def run_pair(case):
    """Both sides in this process."""

    errors = []
    patched = Patched(case)
    host_config, child = configs(case, case.index)
    rng = case.rng
    child["child_name"] = "c.host"
    child["argv"] = [prims_word(rng) for _ in range(rng.choice([0, 1, 3]))]
    if rng.random() < 0.2:
        child["junk"] = rng.randint(1, 5)
    leave = rng.choice(["normal"] * 3 + ["raise", "early", "cancel"])

    state = {}

    async def main():
        patched.attach(
            lambda: make_child(case), [("c", child)], ["x", *child["argv"]]
        )
        # A host that's gone doesn't kill anything.
        patched.patience = 5 if leave == "cancel" else 0
        name = host_config["name"][:-5]
        async with peers.Host.exec(name, dict(host_config), "x") as host:
            state["entered"] = True
            if leave == "early":
                case.event("left")
                return
            await interact(case, host, name, child)
            if leave == "raise":
                case.event("left")
                raise Gone()

    async def outer():
        task = asyncio.create_task(main())
        if leave == "cancel":
            case.event("left")
            await asyncio.sleep(rng.uniform(0.0, 0.3))
            task.cancel()
        try:
            await task
        except (Gone, asyncio.CancelledError):
            pass
        if "entered" not in state:
            case.event("before_exchange")
        for item in patched.transports:
            case.expect(
                not item.killed, "didn't-end",
                f"{leave}: {item.task.get_stack(limit=3)}",
            )
            if leave in ("normal", "raise", "early"):
                case.expect(
                    item.code == 0, "status", f"{leave}: {item.error!r}"
                )
        await asyncio.sleep(0.1)
        left = [
            x for x in asyncio.all_tasks()
            if x is not asyncio.current_task() and "body" not in repr(x)
        ]
        case.expect(not left, "tasks-left", f"{leave}: {left}"[:300])

    clear_env()
    with quiet():
        try:
            vloop.run(outer(), grace=0, limit=400.0, real_limit=60.0,
                      errors=errors)
        finally:
            clear_env()
    case.expect(not errors, "callback-error", f"{errors}"[:400])
    case.event("pairs")
    case.distinct((child["seed"], leave))


def run_fail(case):
    """Programs that fail."""

    errors = []
    patched = Patched(case)
    host_config, child = configs(case, case.index)
    child["fail"] = True
    mark = case.scratch / "mark"
    child["mark"] = str(mark)

    async def main():
        patched.attach(lambda: make_child(case), [("c", child)], ["x"])
        name = host_config["name"][:-5]
        async with peers.Host.exec(name, dict(host_config), "x") as host:
            case.expect(host.peer is not None, "no-environment")
            await settled(
                lambda: patched.transports[0].code is not None, 5.0
            )
        item = patched.transports[0]
        case.expect(not item.killed, "didn't-end", "main failed")
        case.expect(
            item.code == 1 and isinstance(item.error, ValueError),
            "failure-hidden", f"{item.code} {item.error!r}",
        )
        case.expect(mark.exists(), "no-cleanup", "main failed")

    clear_env()
    with quiet():
        try:
            vloop.run(main(), grace=0, limit=100.0, real_limit=60.0,
                      errors=errors)
        finally:
            clear_env()
    case.expect(not errors, "callback-error", f"{errors}"[:400])
    case.event("failed_main")
    case.distinct(child["seed"])


def run_children(case):
    """Real processes."""

    errors = []
    env = dict(os.environ)
    env["PYTHONPATH"] = f"{core.REPO}:{VERIF}"
    env["PYTHONDONTWRITEBYTECODE"] = "1"

    async def one(index):
        rng = case.rng
        name = f"p{case.index}x{index}"
        host_config, child = configs(case, name)
        host_config["name"] = child["child_name"] = name + ".host"
        mark = case.scratch / name
        child["mark"] = str(mark)
        child["argv"] = [prims_word(rng).replace("-", "") for _ in range(2)]
        child["junk"] = rng.choice([0, 0, 0, 2])
        case.event("children")
        async with peers.Host.running_program(
            name, host_config | {"child": child}, "lib.peers.Wrapped",
            *child["argv"], env=env,
        ) as host:
            await interact(case, host, name, child, patience=10.0)
            proto = host.protocol
        code = proto.transport.get_returncode()
        case.equal(code, 0, "status", name)
        case.expect(
            mark.exists() and mark.read_text() ==
            f"{proto.pid} ['early', 'main', 'eof', 'cleanup']\n",
            "cleanup", mark.read_text() if mark.exists() else "nothing",
        )

    async def main():
        await asyncio.gather(*(one(i) for i in range(4)))

    clear_env()
    try:
        vloop.run(main(), virtual=False, real_limit=120.0, errors=errors)
    finally:
        clear_env()
    case.expect(not errors, "callback-error", f"{errors}"[:400])
    case.distinct(case.rng.random())


def prims_word(rng):
    """A word."""
    return "".join(rng.choice("abcxyz-_019") for _ in range(5))


KINDS = {
    "pair": (run_pair, 240, 8000),
    "fail": (run_fail, 6, 100),
    "children": (run_children, 3, 40),
}
