"""C22: applications run stage by stage, outcomes are reported truthfully."""

import asyncio
import logging
import os
import re
import signal
import socket
import sys
import types
import warnings

from lib import vloop

from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.arbiter.config.codec import ConnectionArbiterConfig
from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.net.arbiter.result import ResultState
from runtimepy.net.arbiter.task import ArbiterTask
from runtimepy.net.arbiter.task import TaskFactory
from runtimepy.net.arbiter.tcp import TcpConnectionFactory
from runtimepy.net.connection import Connection
from runtimepy.net.tcp.connection import EchoTcpConnection
from runtimepy.primitives import Uint16

PROPERTY = "C22"
RULE = (
    "generated initialization and application stages whose members return "
    "any code, raise, get cancelled, wait for or set the stop signal and "
    "clean up slowly run with scripted connections, tasks, structs and "
    "servers; the trace, the recorded results, the return code and "
    "everything left over are compared with the stage model; non-trivial = "
    "distinct stage programs"
)
REQUIRED = {"runs": 500, "stages": 900, "apps": 1800, "passed": 150,
            "failed": 200, "raised": 150, "cancelled_apps": 40,
            "not_run": 300, "interrupted": 80, "stop_signals": 100,
            "waited_for_stop": 80, "cancel_out": 15, "connections": 700,
            "tasks": 400, "structs": 300, "callbacks": 300, "servers": 60,
            "startup_errors": 60, "stopped_early": 60,
            "externally_cancelled": 60, "lookups": 300, "sync_runs": 6,
            "two_exceptions": 10, "init_stages": 200,
            "connection_failures": 40}
# Connections of runs that can't start aren't always created.
warnings.filterwarnings("ignore", message=".*was never awaited")
LOG = logging.getLogger("verif.c22")
LOG.propagate = False
LOG.addHandler(logging.NullHandler())
# Applications log to their own loggers.
MODULE = "verif_c22_apps"


class Planned(Exception):
    """An expected failure."""


class Conn(Connection):
    """A scripted connection."""

    def __init__(self, case, init="ok", close="ok", life=1e7):
        case.event("connections")
        self.init_how = init
        self.close_how = close
        self.life = life
        self.active = 0
        self.closes = 0
        super().__init__(LOG)

    async def process(self, **kwargs):
        self.active += 1
        try:
            await super().process(**kwargs)
        finally:
            self.active -= 1

    async def async_init(self):
        if self.init_how == "slow":
            await asyncio.sleep(0.7)
        elif self.init_how == "false":
            return False
        elif self.init_how == "hang":
            await asyncio.sleep(1e7)
        return True

    async def _await_message(self):
        await asyncio.sleep(self.life)
        return None

    async def _send_text_message(self, data):
        pass

    async def _send_binay_message(self, data):
        pass

    async def close(self):
        if self.close_how == "slow":
            await asyncio.sleep(0.3)
        self.closes += 1
        if self.close_how == "error":
            raise Planned("close")


class Poller(ArbiterTask):
    """A task."""

    def __init__(self, name, **kwargs):
        self.inits = []
        self.dispatches = 0
        super().__init__(name, **kwargs)

    async def init(self, app):
        await super().init(app)
        self.inits.append(app)
        if self.config.get("fail"):
            raise Planned("task")

    async def dispatch(self):
        self.dispatches += 1
        await asyncio.sleep(self.config.get("busy", 0.0))
        return self.dispatches < self.config.get("count", 1e9)


class Other(Poller):
    """Another kind of task."""


class PollerFactory(TaskFactory):
    """Creates tasks."""

    kind = Poller


class OtherFactory(TaskFactory):
    """Creates tasks."""

    kind = Other


class Struct(RuntimeStruct):
    """A struct."""

    final_poll = True
    polls = 0
    builds = 0

    def init_env(self):
        self.env.int_channel("value", Uint16())
        self.builds += 1
        if self.config.get("fail"):
            raise Planned("struct")

    def poll(self):
        self.polls += 1


class Struct2(Struct):
    """Another kind of struct."""

    final_poll = False


class EchoFactory(TcpConnectionFactory):
    """Echo servers."""

    kind = EchoTcpConnection


class Program:
    """A generated application."""

    def __init__(self, case):
        self.case = case
        rng = self.rng = case.rng
        self.trace = {}  # name -> [start, end, how it ended]
        self.infos = {}
        self.plans = {}
        self.raised = {}
        self.callbacks = []
        self.ran_callbacks = []
        self.count = 0
        self.module = types.ModuleType(MODULE)
        calm = rng.random() < 0.35
        self.inits = [
            self.stage(calm) for _ in range(rng.choice([0, 0, 0, 1, 2]))
        ]
        self.stages = [self.stage(calm) for _ in range(rng.randint(1, 4))]
        case.event("init_stages", len(self.inits))
        case.event("stages", len(self.stages) + len(self.inits))

    def stage(self, calm):
        """Create a stage."""

        rng = self.rng
        out = []
        # Opposite codes and simultaneous failures.
        special = None if calm else rng.choice([None] * 6 + ["codes", "raise"])
        many = rng.choice([1, 1, 2, 3, 4]) if special is None else 2
        for number in range(many):
            name = f"app{self.count}"
            self.count += 1
            kind = "ret"
            if rng.random() < (0.1 if calm else 0.3):
                kind = rng.choice(
                    ["wait", "setstop"] if calm else
                    ["raise", "raise", "cancel", "subcancel", "wait",
                     "setstop", "none"]
                )
            code = 0
            if not calm and rng.random() < 0.25:
                code = rng.choice([1, -1, 1, -1, 2, -2, 255, True])
            delay = rng.choice([0.0, 0.0, 0.1, 0.5, 1.0, 3.0])
            if special == "codes":
                kind, code = "ret", (-1) ** number
            elif special == "raise":
                kind, delay = "raise", 0.0
            plan = {
                "kind": kind,
                "code": code,
                "delay": delay,
                "cleanup": rng.choice([0.0, 0.0, 0.0, 0.5]),
                "callbacks": rng.choice([0, 0, 0, 1, 2]),
            }
            self.plans[name] = plan
            self.define(name, plan)
            out.append(name)
        return out

    def describe(self):
        return tuple(
            tuple(tuple(self.plans[x].values()) for x in stage)
            for stage in self.inits + self.stages
        )

    def define(self, name, plan):
        """Create an application method."""

        now = lambda: asyncio.get_running_loop().time()  # noqa: E731

        async def act(info):
            kind = plan["kind"]
            if kind == "wait":
                self.case.event("waited_for_stop")
                await info.stop.wait()
            await asyncio.sleep(plan["delay"])
            if kind == "raise":
                exc = self.raised[name] = Planned(name)
                raise exc
            if kind == "cancel":
                raise asyncio.CancelledError(name)
            if kind == "subcancel":
                task = asyncio.ensure_future(asyncio.sleep(10))
                task.cancel()
                await task
            if kind == "setstop":
                info.stop.set()
            if kind == "none":
                return None
            return plan["code"]

        async def app(info):
            self.case.event("apps")
            self.case.expect(name not in self.trace, "started-twice", name)
            entry = self.trace[name] = [now(), None, "running", None]
            self.infos[name] = info
            for _ in range(plan["callbacks"]):
                self.case.event("callbacks")
                number = len(self.callbacks)
                self.callbacks.append(number)
                info.stack.callback(self.ran_callbacks.append, number)
            try:
                result = await act(info)
                entry[2:] = ["returned", now()]
                return result
            except asyncio.CancelledError:
                entry[2:] = ["cancelled", now()]
                if plan["cleanup"]:
                    await asyncio.sleep(plan["cleanup"])
                raise
            except BaseException:
                entry[2:] = ["raised", now()]
                raise
            finally:
                entry[1] = now()

        app.__name__ = name
        setattr(self.module, name, app)

    def config(self, rng):
        """Get configuration data."""

        def stages(items):
            out = []
            for names in items:
                names = [f"{MODULE}.{x}" for x in names]
                if len(names) == 1 and rng.random() < 0.5:
                    out.append(names[0])
                else:
                    out.append(names)
            if len(out) == 1 and isinstance(out[0], str):
                return rng.choice([out, out[0]])
            return out

        out = {"app": stages(self.stages)}
        if self.inits:
            out["init"] = stages(self.inits)
        return out

    def natural(self, name):
        """What an application that isn't interrupted results in."""

        plan = self.plans[name]
        if plan["kind"] in ("raise", "cancel", "subcancel", "none"):
            return None
        return int(plan["code"])


async def build(case, rng, program, fail=None, stop=None):
    """Create an arbiter."""

    arb = ConnectionArbiter(logger=LOG, stop_sig=stop)
    sys.modules[MODULE] = program.module
    arb.register_task_factory(PollerFactory())
    arb.register_task_factory(OtherFactory())
    arb.register_struct_factory(Struct)
    arb.register_struct_factory(Struct2)
    arb.register_connection_factory(EchoFactory())

    tasks = []
    for i in range(rng.randint(0, 3)):
        config = {"busy": rng.choice([0.0, 0.0, 0.3]),
                  "count": rng.choice([1, 3, 10**9])}
        name = f"task{i}"
        tasks.append(name)
        case.event("tasks")
        case.expect(
            arb.factory_task(
                rng.choice(["PollerFactory", "other_factory"]), name,
                period_s=rng.choice([0.05, 0.5]), config=config,
            ), "task-registration", name,
        )
    structs = []
    for i in range(rng.randint(0, 2)):
        name = f"struct{i}"
        structs.append(name)
        case.event("structs")
        case.expect(
            arb.factory_struct(
                rng.choice(["Struct", "struct2"]), name, {}
            ), "struct-registration", name,
        )
    conns = {}

    async def later(conn, delay):
        await asyncio.sleep(delay)
        if conn is None:
            raise Planned("connection")
        return conn

    for i in range(rng.randint(0, 3)):
        conn = Conn(
            case,
            init=rng.choice(["ok", "ok", "slow"]),
            close=rng.choice(["ok", "ok", "slow", "error"]),
        )
        name = f"conn{i}"
        conns[name] = conn
        item = conn
        if rng.random() < 0.3:
            item = later(conn, rng.choice([0.0, 0.2]))
        case.expect(
            arb.register_connection(item, name), "connection-registration",
            name,
        )

    if fail == "task":
        arb.factory_task("PollerFactory", "bad", config={"fail": True})
    elif fail == "struct":
        arb.factory_struct("struct", "bad", {"fail": True})
    elif fail == "connection":
        arb.register_connection(later(None, rng.choice([0.0, 0.3])), "bad")
    return arb, tasks, structs, conns


def judge(case, program, arb, result, disturbed):
    """Judge the results of a program."""

    trace = program.trace
    failed = False
    expect_zero = True
    recorded = []
    infos = list(program.infos.values())
    if infos:
        recorded = list(infos[0].results)
        for info in infos:
            case.expect(
                info.results is infos[0].results, "shared-results", ""
            )

    stages = program.inits + program.stages
    index = 0
    finished = -1.0
    for number, names in enumerate(stages):
        if failed:
            for name in names:
                case.event("not_run")
                case.expect(
                    name not in trace, "started-after-failure",
                    f"{name} of stage {number}",
                )
            # Stages of a failed initialization keep applications away.
            if failed == "init" and number >= len(program.inits):
                continue
            case.expect(
                index < len(recorded)
                and [x.method for x in recorded[index]] == names
                and all(
                    x.state is ResultState.NOT_RUN and x.code is None
                    for x in recorded[index]
                ),
                "not-run-results", f"stage {number}: {recorded}",
            )
            index += 1
            continue

        # Everything in this stage starts at once.
        for name in names:
            case.expect(
                name in trace, "not-started", f"{name} of stage {number}"
            )
        starts = {trace[x][0] for x in names}
        case.expect(
            max(starts) - min(starts) < 1e-6, "stage-start", f"{starts}"
        )
        case.expect(
            min(starts) >= finished - 1e-9, "stage-order",
            f"stage {number} started at {min(starts)}, the previous one "
            f"ended at {finished}",
        )
        for name in names:
            case.expect(
                trace[name][1] is not None, "still-running",
                f"{name}: {trace[name]}",
            )
        finished = max(trace[x][1] for x in names)
        case.expect(
            index < len(recorded)
            and [x.method for x in recorded[index]] == names,
            "recorded-stage", f"stage {number}: {recorded}",
        )
        results = recorded[index]
        index += 1

        broken = [
            x for x in names
            if trace[x][2] == "raised" or program.natural(x) is None
        ]
        raised = 0
        ended = min(
            (trace[x][3] for x in names if trace[x][2] == "raised"),
            default=None,
        )
        if ended is not None:
            for name in names:
                case.expect(
                    trace[name][3] <= ended + 0.05, "not-ended",
                    f"{name} {program.plans[name]} went on until "
                    f"{trace[name][3]} although an application of its stage "
                    f"raised at {ended}",
                )
        for name, got in zip(names, results):
            plan = program.plans[name]
            how = trace[name][2]
            if how == "returned" and program.natural(name) is not None:
                code = program.natural(name)
                want = ResultState.PASS if code == 0 else ResultState.FAIL
                case.expect(
                    got.state is want and got.code == code
                    and got.exception is None,
                    "application-result", f"{name} {plan}: {got}",
                )
                case.event("passed" if code == 0 else "failed")
                if code:
                    failed = True
            elif how == "raised":
                raised += 1
                case.event("raised")
                case.expect(
                    got.state is ResultState.EXCEPTION
                    and got.exception is program.raised[name]
                    and got.code is None,
                    "application-exception", f"{name} {plan}: {got}",
                )
                failed = True
            else:
                # Cancelled (or returned nonsense).
                failed = True
                case.event(
                    "cancelled_apps"
                    if plan["kind"] in ("cancel", "subcancel")
                    else "interrupted"
                )
                case.expect(
                    got.state is ResultState.EXCEPTION
                    and (plan["kind"] == "none" or got.exception is None),
                    "application-cancelled", f"{name} {plan}: {got}",
                )
                case.expect(
                    broken != [], "application-interrupted",
                    f"{name} {plan} was cancelled but nothing in its stage "
                    "failed",
                )
        if raised > 1:
            case.event("two_exceptions")
        if failed:
            expect_zero = False
            codes = [x.code for x in results if x.code is not None]
            if not broken and len(names) > 1 and sum(codes) == 0:
                case.event("cancel_out")
            if not broken and len(names) == 1:
                case.equal(result, codes[0], "single-result")
            if number < len(program.inits):
                failed = "init"

    case.equal(index, len(recorded), "recorded-stages")
    case.expect(isinstance(result, int), "result-type", repr(result))
    case.expect(
        (result == 0) == expect_zero, "overall-result",
        f"returned {result}; {recorded}",
    )
    if infos:
        info = infos[0]
        case.expect(
            info.result() is expect_zero, "result-method", f"{recorded}"
        )
        got = list(info.exceptions())
        extra = [x for x in got if x not in program.raised.values()]
        case.expect(
            all(x in got for x in program.raised.values())
            and len(extra) <= sum(
                x["kind"] == "none" for x in program.plans.values()
            )
            and len(set(map(id, got))) == len(got),
            "exceptions", f"{got}, raised {program.raised}",
        )
        case.equal(info.raised_exception, bool(got), "raised-exception")
    del disturbed


def at_start(case, program, arb, tasks, structs, conns, check):
    """Hook: called when the first application starts."""

    name = next(iter(program.trace))
    info = program.infos[name]
    for key, conn in conns.items():
        case.expect(
            info.connections.get(key) is conn, "connection-missing", key
        )
        if check:
            case.expect(
                conn.initialized.is_set() or conn.disabled,
                "not-initialized", key,
            )
    for key in tasks:
        task = info.tasks[key]
        case.expect(
            len(task.inits) == 1 and task.env.finalized, "task-init", key
        )
    for key in structs:
        struct = info.structs[key]
        case.expect(
            struct.builds == 1 and struct.env.finalized
            and struct.app is not None,
            "struct-build", key,
        )


async def left_over(case, program, arb, tasks, structs, conns, before,
                    started=True):
    """Nothing is left over after a run."""

    loop = asyncio.get_running_loop()
    end = loop.time()
    case.expect(arb.stop_sig.is_set(), "stop-signal", "not set")
    for name, conn in conns.items():
        case.expect(
            conn.active == 0 and conn.disabled, "connection-left",
            f"{name}: {conn.init_how} {conn.close_how}",
        )
        case.equal(conn.closes, 1, "connection-closes", name)
    for name, entry in program.trace.items():
        case.expect(
            entry[1] is not None, "still-running",
            f"{name} {program.plans[name]}",
        )
    case.equal(
        program.ran_callbacks, program.callbacks[::-1], "exit-callbacks"
    )
    for _ in range(10):
        await asyncio.sleep(0)
    left = [x for x in asyncio.all_tasks() - before if not x.done()]
    case.expect(not left, "task-leak", f"{left}")

    counts = [arb.task_manager[x].dispatches for x in tasks]
    if program.trace:
        first = min(x[0] for x in program.trace.values())
        for name, count in zip(tasks, counts):
            if end - first > 1.0:
                case.expect(count >= 1, "task-not-run", name)
    if started and program.infos:
        info = next(iter(program.infos.values()))
        for name in structs:
            case.equal(
                info.structs[name].polls,
                int(info.structs[name].final_poll), "final-poll", name,
            )
    await asyncio.sleep(5.0)
    case.equal(
        [arb.task_manager[x].dispatches for x in tasks], counts,
        "task-still-running",
    )


def run_program(case):
    """Stages of applications."""

    rng = case.rng

    async def main():
        before = asyncio.all_tasks()
        program = Program(case)
        case.distinct(program.describe())
        case.event("runs")
        arb, tasks, structs, conns = await build(case, rng, program)
        direct = rng.random() < 0.25
        port = None
        if rng.random() < 0.25:
            case.event("servers")
            sock = socket.socket()
            sock.bind(("127.0.0.1", 0))
            port = sock.getsockname()[1]
            sock.close()
            await arb.factory_server(
                "echo_factory", host="127.0.0.1", port=port
            )
        config = program.config(rng)
        arg = None
        if direct:
            # A single stage replaces configured ones.
            program.stages = [
                [y for x in program.stages for y in x][:4]
            ]
            arg = [getattr(program.module, x) for x in program.stages[0]]
            if len(arg) == 1 and rng.random() < 0.5:
                arg = arg[0]
        await arb.process_config(ConnectionArbiterConfig(data=config))

        check = rng.random() < 0.7
        failing = None
        if rng.random() < 0.12:
            # This connection ends while initializing.
            case.event("connection_failures")
            failing = Conn(case, init="false")
            conns["failing"] = failing
            arb.register_connection(failing, "failing")

        loop = asyncio.get_running_loop()
        at = rng.choice([40.0, 40.0, 1.5, 4.0])
        handle = loop.call_later(at, arb.stop_sig.set)
        if at < 40.0:
            case.event("stop_signals")
        peer = None
        original = {}

        async def connect():
            """Connect to the server while applications run."""
            nonlocal peer
            await asyncio.sleep(1.2)
            peer = socket.socket()
            peer.setblocking(False)
            try:
                await loop.sock_connect(peer, ("127.0.0.1", port))
            except OSError:
                pass

        client = asyncio.ensure_future(connect()) if port else None
        del original
        task = asyncio.ensure_future(
            arb.app(app=arg, check_connections=check)
        )
        watcher = asyncio.ensure_future(
            watch(case, program, arb, tasks, structs, conns, check)
        )
        result = await task
        watcher.cancel()
        handle.cancel()
        if client is not None:
            client.cancel()
        await asyncio.gather(
            watcher, *([client] if client else []), return_exceptions=True
        )
        if watcher.done() and not watcher.cancelled():
            watcher.result()
        if port is not None:
            probe = socket.socket()
            case.expect(
                probe.connect_ex(("127.0.0.1", port)) != 0, "server-left",
                "still listening",
            )
            probe.close()
            if peer is not None:
                peer.close()

        if failing is not None and check:
            case.expect(
                result != 0 and not program.trace, "failed-connection",
                f"{result} {program.trace}",
            )
        elif not program.trace and at < 2.0 and result != 0:
            # Connections were disabled by the stop signal.
            pass
        else:
            judge(case, program, arb, result, at < 40.0)
        await left_over(case, program, arb, tasks, structs, conns, before)

    vloop.run(main(), limit=1e5, real_limit=60.0,
              grace=0)


async def watch(case, program, arb, tasks, structs, conns, check):
    """Judge the state when the first application starts."""

    while not program.trace:
        await asyncio.sleep(0.01)
    at_start(case, program, arb, tasks, structs, conns, check)


def run_startup(case):
    """Failures before applications can run."""

    rng = case.rng

    async def main():
        before = asyncio.all_tasks()
        program = Program(case)
        case.event("startup_errors")
        fail = rng.choice(["task", "struct", "connection", "server"])
        case.distinct((fail, rng.random()))
        arb, tasks, structs, conns = await build(
            case, rng, program, fail=fail
        )
        blocker = None
        if fail == "server":
            blocker = socket.socket()
            blocker.bind(("127.0.0.1", 0))
            blocker.listen()
            port = blocker.getsockname()[1]
            servers = [{"port": 0}, {"port": port}]
            rng.shuffle(servers)
            for kwargs in servers:
                await arb.factory_server(
                    "EchoFactory", host="127.0.0.1", **kwargs
                )
        await arb.process_config(
            ConnectionArbiterConfig(data=program.config(rng))
        )
        loop = asyncio.get_running_loop()
        start = loop.time()
        got = None
        try:
            got = await asyncio.wait_for(arb.app(), 60.0)
        except asyncio.TimeoutError:
            case.fail("startup-hang", f"{fail}: still waiting")
        except Planned:
            pass
        except OSError:
            case.equal(fail, "server", "startup-error")
        if blocker is not None:
            blocker.close()
        case.expect(
            got is None or got != 0, "startup-success", f"{fail}: {got}"
        )
        case.expect(not program.trace, "started-after-failure", fail)
        case.expect(
            loop.time() - start < 10.0, "startup-time",
            f"{loop.time() - start}",
        )
        # Connections may not have been created yet.
        await asyncio.sleep(1.0)
        known = {
            k: v for k, v in conns.items() if v.closes or v.active
            or not v.disabled and fail != "connection"
        }
        if fail == "server":
            known = {k: v for k, v in known.items() if v.closes}
        await left_over(
            case, program, arb, tasks, structs, known, before, started=False
        )

    vloop.run(main(), limit=1e5, real_limit=60.0)


def run_stopped(case):
    """The stop signal is set before applications run."""

    rng = case.rng

    async def main():
        before = asyncio.all_tasks()
        program = Program(case)
        case.event("runs")
        case.event("stopped_early")
        stop = asyncio.Event()
        arb, tasks, structs, conns = await build(
            case, rng, program, stop=stop
        )
        if rng.random() < 0.5:
            conns["hung"] = Conn(case, init="hang")
            arb.register_connection(conns["hung"], "hung")
        await arb.process_config(
            ConnectionArbiterConfig(data=program.config(rng))
        )
        at = rng.choice([None, 0.0, 0.1, 0.3, 0.5])
        case.distinct((at, len(conns), program.describe()))
        loop = asyncio.get_running_loop()
        if at is None:
            stop.set()
        else:
            loop.call_later(at, stop.set)
        start = loop.time()
        try:
            result = await asyncio.wait_for(arb.app(), 100.0)
        except asyncio.TimeoutError:
            case.fail("stop-ignored", f"set at {at}, {len(conns)}")
        if "hung" in conns or program.trace == {}:
            case.expect(
                result != 0 and not program.trace, "stopped-result",
                f"{result}",
            )
            case.expect(
                loop.time() - start < (at or 0.0) + 3.0, "stop-time",
                f"{loop.time() - start}",
            )
        else:
            judge(case, program, arb, result, True)
        known = {
            k: v for k, v in conns.items()
            if v.closes or v.active or k in arb_connections(arb)
        }
        await left_over(
            case, program, arb, tasks, structs, known, before,
        )

    vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)


def arb_connections(arb):
    """Connections known to the connection manager."""
    return {"hung"}


def run_cancelled(case):
    """The whole run is cancelled."""

    rng = case.rng

    async def main():
        before = asyncio.all_tasks()
        program = Program(case)
        case.event("runs")
        case.event("externally_cancelled")
        arb, tasks, structs, conns = await build(case, rng, program)
        await arb.process_config(
            ConnectionArbiterConfig(data=program.config(rng))
        )
        at = rng.choice([0.8, 1.0, 1.7, 2.5])
        case.distinct((at, program.describe()))
        task = asyncio.ensure_future(arb.app())
        await asyncio.sleep(at)
        if task.done() or (
            program.trace
            and (
                all(x[1] is not None for x in program.trace.values())
                or any(
                    x[2] in ("raised", "cancelled")
                    for x in program.trace.values()
                )
            )
        ):
            # Applications ended already (or are being cleaned up).
            asyncio.get_running_loop().call_later(40.0, arb.stop_sig.set)
            judge(case, program, arb, await task, False)
        else:
            task.cancel()
            done, _ = await asyncio.wait([task], timeout=20.0)
            case.expect(done != set(), "cancel-ignored", f"at {at}")
            case.expect(
                task.cancelled(), "cancel-swallowed", f"at {at}: {task}"
            )
        await left_over(case, program, arb, tasks, structs, conns, before)

    vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)


def run_lookup(case):
    """Applications find connections, tasks and structs."""

    rng = case.rng

    async def main():
        arb = ConnectionArbiter(logger=LOG)
        for factory in (PollerFactory, OtherFactory):
            arb.register_task_factory(factory())
        for kind in (Struct, Struct2):
            arb.register_struct_factory(kind)
        parts = ["a", "b", "ab", "x1", "conn"]
        conns, tasks, structs = {}, {}, {}
        for _ in range(rng.randint(1, 6)):
            names = [rng.choice(parts) for _ in range(rng.randint(1, 3))]
            key = ".".join(names)
            conn = rng.choice([Conn, Conn2])(case)
            good = arb.register_connection(conn, *names, delim=".")
            case.equal(good, key not in conns, "duplicate-connection")
            if good:
                conns[key] = conn
            # Connections, tasks and structs share a namespace.
            name = "t" + rng.choice(parts) + rng.choice(parts)
            kind = rng.choice(["PollerFactory", "OtherFactory"])
            good = arb.factory_task(kind, name, period_s=0.1)
            case.equal(good, name not in tasks, "duplicate-task")
            tasks.setdefault(name, Poller if kind[0] == "P" else Other)
            name = "s" + name
            kind = rng.choice(["Struct", "struct2"])
            good = arb.factory_struct(kind, name, {})
            case.equal(good, name not in structs, "duplicate-struct")
            structs.setdefault(name, Struct if kind[0] == "S" else Struct2)
        case.distinct((tuple(conns), tuple(tasks.items())))

        async def app(info):
            case.equal(dict(info.connections), conns, "connections")
            for _ in range(6):
                case.event("lookups")
                pattern = rng.choice(
                    ["a", "^b", "x1$", ".*", "conn", "a.*b", "zzz"]
                )
                kind = rng.choice([Poller, Other])
                case.equal(
                    [x.name for x in info.search_tasks(kind, pattern)],
                    [k for k, v in tasks.items()
                     if re.search(pattern, k) and issubclass(v, kind)],
                    "search-tasks",
                )
                kind = rng.choice([Struct, Struct2])
                case.equal(
                    [x.name for x in info.search_structs(kind, pattern)],
                    [k for k, v in structs.items()
                     if re.search(pattern, k) and issubclass(v, kind)],
                    "search-structs",
                )
                kind = rng.choice([Conn, Conn2])
                found = list(info.search(pattern=pattern, kind=kind))
                want = [v for k, v in conns.items()
                        if re.search(pattern, k) and isinstance(v, kind)]
                case.expect(
                    len(found) == len(want)
                    and all(x in want for x in found),
                    "search", f"{pattern} {kind}: {found}, {want}",
                )
                if len(want) == 1:
                    case.expect(
                        info.single(pattern=pattern, kind=kind) is want[0],
                        "single", pattern,
                    )
                else:
                    try:
                        info.single(pattern=pattern, kind=kind)
                        case.fail("single-ambiguous", pattern)
                    except AssertionError:
                        pass
            return 0

        case.equal(await arb.app(app), 0, "lookup-result")

    vloop.run(main(), limit=1e4, real_limit=60.0, grace=0)


class Conn2(Conn):
    """Another kind of connection."""


def run_sync(case):
    """The synchronous entry and signals."""

    rng = case.rng
    case.event("sync_runs")
    arb = ConnectionArbiter(logger=LOG)
    code = rng.choice([0, 1, 3])
    how = rng.choice(["return", "signal", "raise"])
    case.distinct((code, how, rng.random()))
    asyncio.set_event_loop(None)

    async def app(info):
        if how == "signal":
            os.kill(os.getpid(), signal.SIGUSR1)
            await asyncio.wait_for(info.stop.wait(), 20.0)
        elif how == "raise":
            raise Planned("app")
        return code

    previous = signal.getsignal(signal.SIGUSR1)
    try:
        result = arb.run(app, signals=[signal.SIGUSR1])
    finally:
        signal.signal(signal.SIGUSR1, previous)
    if how == "raise":
        case.expect(result != 0, "sync-result", f"{result}")
    else:
        case.equal(result, code, "sync-result")
    case.expect(arb.stop_sig.is_set(), "stop-signal", "not set")


KINDS = {
    "program": (run_program, 600, 15000),
    "startup": (run_startup, 90, 2000),
    "stopped": (run_stopped, 90, 2000),
    "cancelled": (run_cancelled, 90, 2000),
    "lookup": (run_lookup, 70, 1500),
    "sync": (run_sync, 8, 40),
}
