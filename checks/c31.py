"""C31: captured logs reach peers once, queued commands run once."""

import asyncio
from contextlib import AsyncExitStack
import json
import logging
import re

from checks.c15 import Memory
from lib import apps as running
from lib import vloop
from vcorelib.logging import ListLogger, LoggerMixin

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
    RemoteCommandProcessor,
)
from runtimepy.mixins.async_command import AsyncCommandProcessingMixin
from runtimepy.mixins.logging import (
    LogCaptureMixin,
    LoggerMixinLevelControl,
    LogLevel,
)
from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.net.arbiter.task import ArbiterTask, TaskFactory
from runtimepy.net.connection import Connection

PROPERTY = "C31"
RULE = (
    "random bytes (split lines and characters, blank lines, line ends) are "
    "appended to random sets of captured files between polls; random "
    "logging histories (levels, arguments, malformed records, bursts) are "
    "interleaved with random messages in both directions; random histories "
    "of queued commands (that succeed, fail, take time, queue more, get "
    "cancelled) are drained directly and by whole applications; what's "
    "observed is compared with what was logged or accepted; non-trivial = "
    "distinct histories"
)
REQUIRED = {"captures": 120, "lines": 3000, "partial": 300, "blank": 300,
            "split_characters": 40, "unsafe": 40, "late_files": 40,
            "pairs": 150, "records": 4000, "staged": 300, "malformed": 60,
            "invalid_messages": 60, "both_captured": 30, "levels": 150,
            "queues": 300, "accepted": 3000, "ran": 2500, "failed": 400,
            "slow": 300, "nested": 100, "refused": 300, "drain_cancelled": 60,
            "overlapping": 60, "unknown": 100, "remote_customs": 100,
            "apps": 60, "app_commands": 800, "app_failed": 30,
            "task_failures": 20, "polls": 150}
LEVELS = [10, 20, 30, 40, 50]
NAMES = {10: "debug", 20: "info", 30: "warning", 40: "error", 50: "critical"}
SERIAL = [0]
TOKEN = re.compile(r"R\d+R")


class Planned(Exception):
    """An expected failure."""


class Recorder(logging.Handler):
    """Remembers records."""

    def __init__(self):
        super().__init__(1)
        self.seen = []

    def emit(self, record):
        self.seen.append((record.levelno, record.getMessage()))


def fresh(prefix):
    """A logger that nothing else uses."""

    SERIAL[0] += 1
    logger = logging.getLogger(f"verif.c31.{prefix}{SERIAL[0]}")
    logger.propagate = False
    logger.setLevel(1)
    logger.addHandler(logging.NullHandler())
    return logger


def forget(*loggers):
    """Don't keep loggers."""
    for logger in loggers:
        for handler in list(logger.handlers):
            logger.removeHandler(handler)
        logging.Logger.manager.loggerDict.pop(logger.name, None)


class Capture(LoggerMixin, LogCaptureMixin):
    """Forwards lines that get added to files."""


def text(rng, token):
    """A line's text."""

    return rng.choice(
        ["{}", "  {}", "{} %s %d", "{} 100%", "{}\tx", "é{}ü", "{} 漢字🙂", "{{}} {}",
         "{}\x0bx", "{}\u2028y", "{} ", "<{}>", '"{}"']
    ).replace("{}", token)


def capture(case):
    """Lines that are added to files."""

    rng = case.rng
    case.event("captures")

    async def body():
        logger = fresh("capture")
        recorder, listed = Recorder(), ListLogger.create()
        logger.addHandler(recorder)
        logger.addHandler(listed)
        inst = Capture(logger=logger)
        safe = rng.random() < 0.6
        inst.safe_to_log = safe
        if not safe:
            case.event("unsafe")
        paths, files = [], []
        serial = 0
        for i in range(rng.randint(1, 3)):
            path = case.scratch.joinpath(f"{case.index}-{i}.log")
            level = rng.choice(LEVELS)
            how = rng.choice([NAMES[level], level, LogLevel(level)])
            if rng.random() < 0.2:
                # Doesn't exist.
                case.event("late_files")
                paths.append((how, path))
                continue
            backlog = rng.choice([b"", b"old\nolder\n", b"old\n\npart of"])
            path.write_bytes(backlog)
            paths.append((how, rng.choice([path, str(path)])))
            files.append([level, path.open("ab"), b"", []])
        async with AsyncExitStack() as stack:
            await inst.init_log_capture(stack, paths)
            shape = []
            for _ in range(rng.randint(3, 25)):
                for entry in files:
                    if rng.random() < 0.3:
                        continue
                    data = b""
                    for _ in range(rng.choice([0, 1, 1, 2, 5, 30])):
                        serial += 1
                        if rng.random() < 0.15:
                            case.event("blank")
                            data += rng.choice([b"\n", b"\r\n", b"  \n"])
                            continue
                        line = text(rng, f"L{serial}L").encode()
                        data += line + rng.choice([b"\n", b"\n", b"\r\n"])
                    if data and rng.random() < 0.5:
                        # What's left gets written the next time.
                        case.event("partial")
                        cut = rng.randint(0, len(data))
                        if cut < len(data) and data[cut] & 0xC0 == 0x80:
                            case.event("split_characters")
                    else:
                        cut = len(data)
                    pend = entry[2] + data[:cut]
                    entry[1].write(data[:cut])
                    entry[1].flush()
                    *lines, entry[2] = pend.split(b"\n")
                    entry[3] += lines
                    # (The rest, once it's known what was expected so far.)
                    entry.append(data[cut:])
                await inst.dispatch_log_capture()
                want = []
                for entry in files:
                    for line in entry[3]:
                        line = line.decode().rstrip()
                        if line:
                            case.event("lines")
                            want.append((entry[0], line))
                    entry[3] = []
                got = [(x.levelno, x.getMessage()) for x in listed.log_messages]
                shape.append(len(want))
                case.equal(got, want, "captured", f"safe={safe}")
                case.equal(listed.drain_str(), [x[1] for x in want],
                           "displayed", f"safe={safe}")
                case.equal(recorder.seen, want if safe else [], "logged",
                           f"safe={safe}")
                recorder.seen.clear()
                # Complete what was split.
                for entry in files:
                    rest = b"".join(entry[4:])
                    del entry[4:]
                    if rest:
                        entry[1].write(rest)
                        entry[1].flush()
                        *lines, entry[2] = (entry[2] + rest).split(b"\n")
                        entry[3] += lines
        for entry in files:
            entry[1].close()
        case.distinct(tuple(shape), serial)
        forget(logger)

    vloop.run(body(), limit=1000.0)


class Bad:
    """Not encodable."""

    def __init__(self, token):
        self.token = token

    def __str__(self):
        return self.token


def forward(case):
    """Records of one side are logged by the other."""

    rng = case.rng
    case.event("pairs")

    async def body():
        logs = [fresh("left"), fresh("right")]
        ends = [Memory(x) for x in logs]
        sources = [fresh("sl"), fresh("sr")]
        both = rng.random() < 0.4
        if both:
            case.event("both_captured")
        queues = [asyncio.Queue(), asyncio.Queue()]
        recorders = [Recorder(), Recorder()]
        for i, conn in enumerate(ends):
            conn.setup(case, ["left", "right"][i])
            conn.list_handler.setLevel(1)
            if i == 0 or both:
                sources[i].addHandler(conn.list_handler)
            conn.outgoing = queues[1 - i].put_nowait
            logs[i].addHandler(recorders[i])
            logs[i].setLevel(1)
            conn.env.finalize(strict=False)
        want = [[], []]  # What each side receives.
        loose, staged = set(), set()

        async def pump(i):
            while True:
                frame = await queues[i].get()
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.choice([0, 0.01, 0.2]))
                await ends[i].process_binary(frame)

        pumps = [asyncio.create_task(pump(i)) for i in range(2)]
        serial = 0

        def log(i):
            nonlocal serial
            serial += 1
            level = rng.choice(LEVELS + [15])
            token = f"R{serial}R"
            line = text(rng, token)
            roll = rng.random()
            logger = sources[i]
            if roll < 0.2:
                case.event("staged")
                staged.add(token)
                if rng.random() < 0.5:
                    ends[i].stage_remote_log(
                        "%s: %d", token, serial, level=level
                    )
                    line = f"{token}: {serial}"
                else:
                    ends[i].stage_remote_log(line, level=level)
            elif i == 1 and not both:
                return
            elif roll < 0.5:
                logger.log(level, line)
            elif roll < 0.7:
                logger.log(level, "%s %d %r", Bad(token), serial, "x")
                line = f"{token} {serial} 'x'"
            elif roll < 0.8:
                logger.log(level, "%(a)s %(b)s", {"a": token, "b": [1]})
                line = f"{token} [1]"
            elif roll < 0.85:
                logger.log(level, Bad(token))
                line = token
            elif roll < 0.95:
                try:
                    raise Planned(token)
                except Planned:
                    logger.log(level, "%s failed", token, exc_info=True)
                line = f"{token} failed"
            else:
                # The message and its arguments don't go together.
                case.event("malformed")
                logger.log(level, token + " %d %d", Bad("x"))
                loose.add(token)
                line = token
            case.event("records")
            want[1 - i].append((level, token, line))

        async def talk(i):
            conn = ends[i]
            roll = rng.random()
            if roll < 0.3:
                case.expect(await conn.loopback({"a": serial}), "loopback")
            elif roll < 0.6:
                data = {"work": {"token": f"{i}-{serial}-{rng.random()}"}}
                keep = json.dumps(data)
                got = await conn.wait_json(data)
                case.equal(json.dumps(data), keep, "data-changed")
                case.equal(sorted(got), ["work"], "response", str(got))
            elif roll < 0.8:
                data = {"__id__": -5}
                conn.send_json(data)
                case.equal(data, {"__id__": -5}, "data-changed")
            else:
                case.event("invalid_messages")
                message = {
                    "__log_messages__": rng.choice(
                        [5, None, [1], [None], [{}], [{"msg": 5}], "abc",
                         [{"level": "x", "msg": "y"}], [[]],
                         [{"msg": "", "level": 30}]]
                    ),
                    "unknown-key": 5,
                }
                frame = json.dumps(message).encode()
                queues[i].put_nowait(len(frame).to_bytes(4, "big") + frame)

        jobs = []
        for _ in range(rng.randint(5, 30)):
            side = rng.choice([0, 0, 1])
            for _ in range(rng.choice([0, 1, 2, 3, 40])):
                log(side)
            if rng.random() < 0.6:
                jobs.append(asyncio.create_task(talk(rng.choice([0, 0, 1]))))
            if rng.random() < 0.4:
                await asyncio.sleep(rng.choice([0, 0.01, 0.1]))
        await asyncio.gather(*jobs)
        for conn in ends:
            conn.send_json({"__id__": -7})
        await asyncio.sleep(5)
        for task in pumps:
            case.expect(not task.done(), "ended",
                        str(task.done() and task.exception()))
            task.cancel()
        for i in range(2):
            got = [x for x in recorders[i].seen
                   if x[1].startswith("remote: ") and TOKEN.search(x[1])]
            ids = [TOKEN.search(x[1])[0] for x in got]
            # (Staged ones don't wait for captured ones.)
            for direct in (True, False):
                mine = [x[1] for x in want[i] if (x[1] in staged) == direct]
                seen = [x for x in ids if (x in staged) == direct]
                case.expect(
                    seen == mine, "record-sequence",
                    f"side {i}: lost {[x for x in mine if x not in seen]} "
                    f"extra {[x for x in seen if seen.count(x) > 1]}",
                )
            got.sort(key=lambda x: int(TOKEN.search(x[1])[0][1:-1]))
            for (level, line), (want_level, token, full) in zip(got, want[i]):
                case.equal(level, want_level, "record-level", token)
                if token in loose:
                    case.expect(token in line, "record-text", token)
                else:
                    case.equal(line, "remote: " + full, "record-text", token)
        case.distinct(tuple(x[2] for x in want[0] + want[1]))
        forget(*logs, *sources)

    vloop.run(body(), grace=0, limit=1000.0)


class Leveled(LoggerMixinLevelControl):
    """Has a log level that can be commanded."""


def level(case):
    """A commanded level filters what's logged."""

    rng = case.rng
    logger = fresh("level")
    recorder = Recorder()
    logger.addHandler(recorder)
    env = ChannelEnvironment()
    inst = Leveled(logger=logger)
    start = rng.choice(LEVELS)
    name = rng.choice(["log_level", "level"])
    inst.setup_level_channel(env, name=name, initial=NAMES[start])
    processor = ChannelCommandProcessor(env, fresh("p"))
    env.finalize(strict=False)
    current = start
    shape = [start]
    for _ in range(rng.randint(2, 12)):
        case.event("levels")
        case.equal(env.value(name), NAMES[current], "level-shown")
        recorder.seen.clear()
        for at in LEVELS + [15, 25, 5]:
            inst.logger.log(at, "x %d", at)
        case.equal(
            recorder.seen,
            [(x, f"x {x}") for x in LEVELS + [15, 25, 5] if x >= current],
            "level-filter", f"{current} after {shape}",
        )
        new = rng.choice(LEVELS)
        bad = rng.random() < 0.2
        how = rng.choice([NAMES[new], str(new)])
        recorder.seen.clear()
        result = processor.command(f"set {name} {'nope' if bad else how}")
        case.equal(result.success, not bad, "level-command", str(result))
        if not bad:
            current = new
        shape.append((new, bad))
    case.distinct(tuple(shape), name)
    forget(logger, processor.logger)


class Mixed(AsyncCommandProcessingMixin):
    """Runs commands that were queued."""

    def prepare(self, case, name="x", quick=False):
        """Set state up."""

        self.case = case
        self.ran = []
        self.active = 0
        self.peak = 0
        self.ended = []
        self.quick = quick
        rng = case.rng

        async def work(args, channel):
            await self.perform("work", args, channel)

        async def fail(args, channel):
            await self.perform("fail", args, channel)
            raise rng.choice(
                [Planned, AssertionError, KeyError, ValueError,
                 asyncio.TimeoutError, RuntimeError]
            )(name)

        async def again(args, channel):
            await self.perform("again", args, channel)
            self.give(f"custom work {args.extra[0]}n")

        self._setup_async_commands(work, fail)
        # Commands can be added at any time.
        self._setup_async_commands(again)
        self.wanted = []
        self.failures = 0

    async def perform(self, which, args, channel):
        """A command runs."""

        token = args.extra[0]
        self.ran.append((which, token))
        self.active += 1
        self.peak = max(self.peak, self.active)
        try:
            if len(args.extra) > 1:
                await asyncio.sleep(float(args.extra[1]))
        finally:
            self.active -= 1
        self.ended.append(token)

    async def handle_command(self, args, channel):
        if not args.remote and args.channel == "on":
            self.ran.append((args.command, "-"))
        elif args.channel == "value" or args.remote:
            which = "remote" if args.remote else "set"
            token = args.extra[0]
            if not args.remote:
                self.case.expect(
                    channel is not None and channel.commandable,
                    "channel-argument", token,
                )
            self.ran.append((which, token))
            if int(token) % 5 == 0:
                raise Planned(token)

    def give(self, command):
        """Accept a command."""

        case = self.case
        result = self.command.command(command)
        parts = command.split()
        case.expect(result.success, "accepted", f"{command}: {result}")
        if parts[0] == "toggle":
            self.wanted.append(("toggle", "-"))
        elif parts[0] == "set":
            self.wanted.append(("set", parts[2]))
        elif "-r" in parts:
            self.wanted.append(("remote", parts[-1]))
        elif parts[1] != "unknown":
            self.wanted.append((parts[1], parts[2]))
        else:
            case.event("unknown")
        case.event("accepted")

    def random(self, serial):
        """Send something."""

        rng, case = self.case.rng, self.case
        roll = rng.random()
        nap = ""
        if rng.random() < 0.4 and not self.quick:
            case.event("slow")
            nap = rng.choice([" 0", " 0.01", " 0.3"])
        if roll < 0.35:
            self.give(f"custom work {serial}{nap}")
        elif roll < 0.5:
            case.event("failed")
            self.give(f"custom fail {serial}{nap}")
        elif roll < 0.6:
            case.event("nested")
            self.give(f"custom again {serial}{nap}")
        elif roll < 0.75:
            self.give(f"set value {serial}")
        elif roll < 0.8:
            self.give("toggle on")
        elif roll < 0.85:
            self.give(f"custom unknown {serial}")
        else:
            case.event("refused")
            bad = rng.choice(
                ["set fixed 1", "bogus", "set value", "set nothing 1",
                 "toggle value", "set value abc", "get value"]
            )
            result = self.command.command(bad)
            case.equal(bool(result), bad == "get value", "refused", bad)
            if bad == "get value":
                # (Nothing to do, but nothing to hide either.)
                return


def channels(env):
    """Channels to command."""
    env.int_channel("value", "uint32", commandable=True)
    env.int_channel("fixed", "uint32")
    env.bool_channel("on", commandable=True)


class Plain(Mixed):
    """Not part of an application."""

    def __init__(self, case, remote=False):
        self.logger = fresh("plain")
        self.recorder = Recorder()
        self.logger.addHandler(self.recorder)
        env = ChannelEnvironment()
        channels(env)
        env.finalize(strict=False)
        kind = RemoteCommandProcessor if remote else ChannelCommandProcessor
        self.command = kind(env, self.logger)
        self.prepare(case)


def queues(case):
    """Commands are queued and run later."""

    rng = case.rng
    case.event("queues")

    async def body():
        inst = Plain(case)
        overlap = rng.random() < 0.25
        stopping = not overlap and rng.random() < 0.3
        task = None
        for serial in range(1, rng.randint(5, 30)):
            for i in range(rng.choice([0, 1, 1, 2, 5])):
                inst.random(serial * 10 + i)
            roll = rng.random()
            if roll < 0.3:
                await asyncio.sleep(rng.choice([0, 0.01, 0.5]))
            if roll < 0.6 and (task is None or task.done() or overlap):
                if task is not None and not task.done():
                    case.event("overlapping")
                elif task is not None:
                    case.equal(task.exception() if not task.cancelled()
                               else None, None, "drain-failed")
                task = asyncio.create_task(inst.process_command_queue())
            elif task and not task.done() and stopping and inst.active:
                case.event("drain_cancelled")
                task.cancel()
                await asyncio.wait([task])
                case.expect(task.cancelled(), "cancel-swallowed")
        if task is not None:
            await asyncio.wait([task])
        for _ in range(2):
            await inst.process_command_queue()
        await asyncio.sleep(1.0)
        case.equal(inst.ran, inst.wanted, "commands")
        case.event("ran", len(inst.ran))
        if not overlap:
            case.expect(inst.peak <= 1, "overlapped", str(inst.ran))
        case.distinct(tuple(inst.ran))
        case.sample(str(inst.ran)[:100])
        forget(inst.logger)

    vloop.run(body(), grace=0, limit=1000.0)


def remotes(case):
    """Commands for something remote don't run here."""

    rng = case.rng

    async def body():
        inst = Plain(case, remote=rng.random() < 0.6)
        remote = isinstance(inst.command, RemoteCommandProcessor)
        want = []
        for serial in range(1, rng.randint(3, 12)):
            flag = "" if remote else "-r "
            if rng.random() < 0.6:
                case.event("remote_customs")
                command = f"custom {flag}work {serial}"
            else:
                command = f"set {flag}value {serial}"
            if not remote and rng.random() < 0.3:
                command = f"custom work {serial}"
                want.append(("work", str(serial)))
            else:
                want.append(("remote", str(serial)))
            case.expect(bool(inst.command.command(command)), "accepted")
            if rng.random() < 0.3:
                await inst.process_command_queue()
        await inst.process_command_queue()
        case.equal(inst.ran, want, "remote-commands", str(remote))
        case.equal(inst.command.env.value("value"), 0, "remote-effect")
        case.distinct(remote, tuple(want))
        forget(inst.logger)

    vloop.run(body(), grace=0, limit=1000.0)


CURRENT = []


class Tasked(ArbiterTask, Mixed):
    """A task with commands."""

    async def init(self, app):
        await super().init(app)
        channels(self.env)
        self.prepare(CURRENT[-1])

    async def dispatch(self):
        return True


class TaskedFactory(TaskFactory):
    """Creates tasks."""

    kind = Tasked


class Structured(Mixed, RuntimeStruct):
    """A struct with commands."""

    polls = 0

    def init_env(self):
        channels(self.env)
        self.prepare(CURRENT[-1])

    def poll(self):
        self.polls += 1


class Connected(Mixed, Connection):
    """A connection with commands and tasks."""

    def __init__(self, case):
        self.mine = []
        super().__init__(fresh("conn"))
        channels(self.env)
        self.prepare(case)

    @property
    def tasks(self):
        """This connection's tasks."""
        self.mine = [x for x in self.mine if not x.done()]
        yield from self.mine

    async def _await_message(self):
        await asyncio.sleep(1e7)

    async def _send_text_message(self, data):
        pass

    async def _send_binay_message(self, data):
        pass

    async def close(self):
        pass


def apps(case):
    """An application runs the commands of everything it has."""

    rng = case.rng
    case.event("apps")
    CURRENT[:] = [case]

    async def body():
        quiet = fresh("app")
        arb = ConnectionArbiter(logger=quiet)
        arb.register_task_factory(TaskedFactory())
        arb.register_struct_factory(Structured)
        names, conns = [], []
        for i in range(rng.randint(0, 2)):
            conn = Connected(case)
            conns.append(conn)
            arb.register_connection(conn, f"c{i}")
        for i in range(rng.randint(0, 2)):
            arb.factory_task("TaskedFactory", f"t{SERIAL[0]}.{i}",
                             period_s=rng.choice([0.1, 1.0]))
        for i in range(rng.randint(1, 2)):
            arb.factory_struct("Structured", f"s{SERIAL[0]}.{i}", {})

        async def app(info):
            items = [*info.connections.values(), *info.structs.values()]
            items += [x for x in info.tasks.values() if isinstance(x, Tasked)]
            names.extend(x.name if not isinstance(x, Connection) else "c"
                         for x in items)
            for item in items:
                item.logger.propagate = False
                item.logger.addHandler(logging.NullHandler())
            polls = {}
            for serial in range(1, rng.randint(4, 20)):
                for i in range(rng.choice([1, 1, 3])):
                    item = rng.choice(items)
                    case.event("app_commands")
                    if isinstance(item, Structured) and rng.random() < 0.3:
                        case.event("polls")
                        count = rng.choice([1, 2, 5])
                        bad = rng.random() < 0.25
                        extra = "many" if bad else rng.choice(
                            [f"{count}", f"{count} 0.01"]
                        )
                        case.expect(
                            bool(item.command.command(f"custom poll {extra}")),
                            "accepted",
                        )
                        if bad:
                            case.event("app_failed")
                        else:
                            polls[item.name] = polls.get(item.name, 0) + count
                    else:
                        item.random(serial * 10 + i)
                if conns and rng.random() < 0.3:
                    # (Not for long, everything else waits for these.)
                    case.event("task_failures")
                    conn = rng.choice(conns)

                    async def job(delay, how):
                        await asyncio.sleep(delay)
                        if how:
                            raise Planned("job")

                    task = asyncio.create_task(
                        job(rng.choice([0, 0.05, 0.3]), rng.random() < 0.6)
                    )
                    conn.mine.append(task)
                    if rng.random() < 0.4:
                        asyncio.get_running_loop().call_later(
                            rng.choice([0.0, 0.02, 0.25]), task.cancel
                        )
                await asyncio.sleep(rng.choice([0, 0.05, 0.5]))
            # Everything that's queued takes its time.
            for _ in range(400):
                await asyncio.sleep(0.5)
                if all(len(x.ran) >= len(x.wanted) and not x.active
                       for x in items):
                    break
            await asyncio.sleep(2.0)
            for item, name in zip(items, names):
                case.equal(item.ran, item.wanted, "app-commands", name)
                case.event("ran", len(item.ran))
                case.expect(item.peak <= 1, "overlapped", name)
                if isinstance(item, Structured):
                    case.equal(item.polls, polls.get(item.name, 0), "polls")
            case.distinct(*[tuple(x.ran) for x in items])
            for item in items:
                forget(item.logger)
            return 0

        case.equal(await running.launch(arb, app), 0, "app-result")
        forget(quiet)

    vloop.run(body(), grace=0, limit=10000.0)


KINDS = {
    "capture": (capture, 200, 6000),
    "forward": (forward, 250, 8000),
    "level": (level, 80, 2000),
    "queues": (queues, 500, 15000),
    "remotes": (remotes, 100, 3000),
    "apps": (apps, 120, 4000),
}
