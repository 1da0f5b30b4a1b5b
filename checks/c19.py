"""C19: connections end cleanly exactly once and wake every waiter."""

import asyncio
import logging
import socket

from checks.c16 import Transport
from lib import nets, vloop

from runtimepy.net.backoff import ExponentialBackoff
from runtimepy.net.connection import Connection
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.tcp.protocol import QueueProtocol
from runtimepy.net.udp.connection import UdpConnection
from runtimepy.net.websocket import WebsocketConnection

PROPERTY = "C19"
RULE = (
    "scripted connections (queue-based, in-memory TCP, loopback TCP, UDP and "
    "WebSocket) are started, fed, disabled, cancelled, stopped, closed by "
    "their peer, failed in every hook and restarted at random points of "
    "logical time; hook calls, tasks, events and channels are compared with "
    "the lifecycle model; non-trivial = distinct (script, fault, time)"
)
REQUIRED = {"runs": 1500, "ended": 1500, "fault_disable": 100,
            "fault_cancel": 100, "fault_stop": 100, "fault_eof": 100,
            "fault_read_error": 50, "fault_handler_error": 50,
            "fault_handler_false": 50, "fault_init_error": 50,
            "fault_init_false": 50, "fault_send_error": 30,
            "fault_close_error": 20, "fault_timed": 30,
            "double_cancel": 30, "restarts": 300, "restart_failures": 200,
            "gave_up": 20, "waiters": 1500, "owned_tasks": 500,
            "tcp_runs": 100, "late_loss": 10, "udp_runs": 50, "ws_runs": 40,
            "no_restart": 100, "cancelled_restart": 20}
LOG = logging.getLogger("verif.c19")
LOG.propagate = False
LOG.addHandler(logging.NullHandler())

HANG = 10000.0


class Planned(Exception):
    """An expected failure."""


class Script:
    """How each hook behaves in one run."""

    def __init__(self, rng):
        self.init = rng.choice(
            ["ok", "ok", "ok", "ok", "slow", "hang", "false", "error"]
        )
        self.handler = rng.choice(["ok", "ok", "ok", "slow", "hang"])
        self.fail_at = None
        self.send = rng.choice(["ok", "ok", "ok", "slow", "hang", "error"])
        self.close = rng.choice(["ok", "ok", "ok", "slow", "error"])
        self.extra_tasks = rng.choice([0, 0, 1, 3])
        self.fault = rng.choice([
            "disable", "disable", "cancel", "stop", "eof", "read_error",
            "handler_error", "handler_false", "timed", "handler_disable",
            "init_disable",
        ])
        if self.fault in ("handler_error", "handler_false",
                          "handler_disable"):
            self.fail_at = rng.randrange(4)
        self.when = rng.choice([0, 0, 0.0, 0.001, 0.5, 1.5, 3.0])
        self.hops = rng.randrange(6)
        self.repeat = rng.random() < 0.4
        self.double_cancel = rng.random() < 0.4
        self.messages = rng.randrange(0, 8)

    def key(self):
        return (self.init, self.handler, self.fail_at, self.send, self.close,
                self.extra_tasks, self.fault, self.when, self.hops,
                self.repeat, self.messages)


class Monitor:
    """Hook bookkeeping shared by every kind of connection."""

    def setup(self, case, script):
        self.case = case
        self.script = script
        self.inits = 0
        self.extras = 0
        self.closes = 0
        self.restart_calls = 0
        self.active = 0
        self.handled = []
        self.bad = []
        self.owned = []
        self.plan = []

    async def hook(self, how, label):
        if how == "slow":
            await asyncio.sleep(0.7)
        elif how == "hang":
            await asyncio.sleep(HANG)
        elif how == "error":
            self.case.event("fault_" + label + "_error")
            raise Planned(label)

    async def run_init(self):
        self.inits += 1
        if self.disabled:
            self.bad.append("initialized while disabled")
        for _ in range(self.script.extra_tasks):
            task = asyncio.create_task(asyncio.sleep(HANG))
            self._conn_tasks.append(task)
            self.owned.append(task)
            self.case.event("owned_tasks")
        if self.script.fault == "init_disable":
            self.disable("from init")
            return True
        if self.script.init == "false":
            self.case.event("fault_init_false")
            return False
        await self.hook(self.script.init, "init")
        return True

    async def run_handler(self, data):
        if self.disabled:
            self.bad.append(f"handled {data} while disabled")
        self.active += 1
        if self.active > 1:
            self.bad.append("handlers overlap")
        try:
            index = len(self.handled)
            self.handled.append(data)
            if self.script.fail_at == index:
                fault = self.script.fault
                if fault == "handler_false":
                    self.case.event("fault_handler_false")
                    return False
                if fault == "handler_error":
                    self.case.event("fault_handler_error")
                    raise Planned("handler")
                self.disable("from handler")
                return True
            await self.hook(self.script.handler, "handler")
            return True
        finally:
            self.active -= 1

    async def run_send(self):
        await self.hook(self.script.send, "send")

    async def run_close(self):
        self.closes += 1
        await self.hook(self.script.close, "close")

    def run_extra(self):
        self.extras += 1


class Scripted(Monitor, Connection):
    """A connection made of queues."""

    def __init__(self, case, script):
        self.inbox = asyncio.Queue()
        self.setup(case, script)
        super().__init__(LOG)

    async def async_init(self):
        return await self.run_init()

    async def _await_message(self):
        item = await self.inbox.get()
        if isinstance(item, Exception):
            raise item
        return item

    async def process_text(self, data):
        return await self.run_handler(data)

    async def process_binary(self, data):
        return await self.run_handler(data)

    async def _send_text_message(self, data):
        await self.run_send()

    async def _send_binay_message(self, data):
        await self.run_send()

    async def close(self):
        await self.run_close()

    def disable_extra(self):
        self.run_extra()

    async def restart(self):
        self.restart_calls += 1
        what = self.plan.pop(0) if self.plan else True
        if what == "error":
            self.case.event("restart_failures")
            raise Planned("restart")
        if not what:
            self.case.event("restart_failures")
            return False
        self.inbox = asyncio.Queue()
        return True

    def feed(self, item):
        self.inbox.put_nowait(item)


class Memory(Monitor, TcpConnection):
    """A TCP connection without a socket."""

    @classmethod
    def make(cls, case, script):
        transport = Transport()
        protocol = QueueProtocol()
        protocol.connection_made(transport)
        conn = cls(transport, protocol)
        conn.setup(case, script)
        conn.parts = (transport, protocol)
        return conn

    async def async_init(self):
        return await self.run_init()

    async def process_binary(self, data):
        return await self.run_handler(data)

    async def close(self):
        await super().close()
        await self.run_close()

    def disable_extra(self):
        self.run_extra()

    def feed(self, item):
        if item is None:
            self.parts[1].connection_lost(None)
        elif isinstance(item, Exception):
            self.parts[1].connection_lost(item)
        else:
            self.parts[1].data_received(item)


def watch(conn, released):
    """Wait for initialization in the background."""

    before = conn.disabled

    async def waiter():
        # An ended connection won't be initialized until it's restarted.
        if before or not conn.disabled:
            await conn.initialized.wait()
        released.append(True)

    return asyncio.create_task(waiter())


async def hops(count):
    for _ in range(count):
        await asyncio.sleep(0)


async def one_run(case, conn, script, first):
    """Process once, inject the fault and check the ending."""

    rng = case.rng
    case.event("runs")
    case.distinct(script.key())
    conn.script = script
    conn.handled.clear()
    before = (conn.inits, conn.extras, conn.closes)
    stop = asyncio.Event()
    kwargs = {}
    if rng.random() < 0.5 or script.fault == "stop":
        kwargs["stop_sig"] = stop
    if script.fault == "timed":
        kwargs["disable_time"] = script.when
    released = []
    waiters = []

    def add_waiter():
        case.event("waiters")
        waiters.append(watch(conn, released))

    if first and rng.random() < 0.5:
        add_waiter()
    outside = set(asyncio.all_tasks())
    task = asyncio.create_task(conn.process(**kwargs))
    await asyncio.sleep(0)

    # Wait for a restart (if necessary).
    if not first:
        enabled = []
        prim = conn.env.field_or_channel("enabled").raw
        ident = prim.register_callback(lambda _, new: enabled.append(new))
        for _ in range(4000):
            if enabled or task.done():
                break
            await asyncio.sleep(0.01)
        prim.remove_callback(ident)
        case.equal(enabled[:1], [True], "restart",
                   "a successful restart enables the connection")
        case.event("restarts")

    given = []
    if script.handler != "hang" or rng.random() < 0.5:
        for i in range(script.messages):
            given.append(b"%d" % i)
            conn.feed(given[-1])
            if rng.random() < 0.3:
                conn.send_binary(b"out")
            if rng.random() < 0.3:
                conn.send_text("out")
            if rng.random() < 0.2:
                await asyncio.sleep(0)
    if not conn.disabled:
        add_waiter()
        case.expect(not conn.exited.is_set(), "exited",
                    "a running connection hasn't exited")
    await hops(script.hops)
    if script.when:
        await asyncio.sleep(script.when)

    fault = script.fault
    if fault == "disable" or fault.endswith("_disable"):
        case.event("fault_disable")
        conn.disable("test")
        case.expect(conn.disabled, "disable-now", "disable is immediate")
        if script.repeat:
            conn.disable("again")
    elif fault == "cancel":
        case.event("fault_cancel")
        task.cancel()
        if script.double_cancel:
            case.event("double_cancel")
            await hops(rng.randrange(1, 6))
            task.cancel()
    elif fault == "stop":
        case.event("fault_stop")
        stop.set()
    elif fault == "eof":
        case.event("fault_eof")
        conn.feed(None)
    elif fault == "read_error":
        case.event("fault_read_error")
        conn.feed(Planned("read"))
    elif fault == "timed":
        case.event("fault_timed")
    else:
        # The handler may not get that far.
        while len(given) <= (script.fail_at or 0):
            given.append(b"%d" % len(given))
            conn.feed(given[-1])

    # Some scripts wait for something that never happens.
    done, _ = await asyncio.wait([task], timeout=60.0)
    if not done:
        stuck = (
            script.handler == "hang" and conn.handled
        ) and fault in ("eof", "read_error", "handler_error",
                        "handler_false", "handler_disable")
        case.expect(stuck, "still-running",
                    f"{fault} didn't end the connection: {script.key()}")
        conn.disable("test")
        done, _ = await asyncio.wait([task], timeout=60.0)
        case.expect(done, "disable-ends", "disable ends the connection")

    case.event("ended")
    error = None
    if task.cancelled():
        case.expect(fault == "cancel", "cancelled",
                    f"cancelled without a reason: {script.key()}")
    else:
        error = task.exception()
    close_failed = script.close == "error"
    case.expect(
        error is None or (close_failed and isinstance(error, Planned)),
        "process-raised", f"{error!r} from process: {script.key()}")
    case.expect(conn.disabled, "enabled",
                f"still enabled after {script.key()}")
    case.expect(conn.env.value("enabled") is False, "enabled-channel",
                "the channel says disabled")
    case.expect(conn.disabled_event.is_set(), "disabled-event", "set")
    case.expect(conn.exited.is_set(), "exited", f"{script.key()}")
    case.equal(conn.extras - before[1], 1, "disable-extra",
               f"the disable hook runs once: {script.key()}")
    case.equal(conn.closes - before[2], 1, "close",
               f"closed once: {script.key()}")
    case.expect(conn.inits - before[0] <= 1, "init-once", "initialized once")
    case.equal(conn.bad, [], "hooks", f"{script.key()}")
    case.expect(given[: len(conn.handled)] == conn.handled, "messages",
                f"handled {conn.handled} of {given}")
    case.expect(conn.active == 0, "handler-left", "no handler is running")

    await hops(8)
    for item in conn.owned:
        case.expect(item.done(), "owned-task",
                    f"an owned task is still running: {script.key()}")
    conn.owned.clear()
    case.equal(len(released), len(waiters), "initialized-waiters",
               f"released waiters after {script.key()}")
    left = [
        x for x in asyncio.all_tasks() - outside
        if x not in waiters and not x.done()
    ]
    case.expect(not left, "task-leak", f"{left} after {script.key()}")

    # A connection that ended doesn't handle anything.
    count = len(conn.handled)
    if fault not in ("eof", "read_error") or isinstance(conn, Scripted):
        case.event("no_restart")
        conn.feed(b"late")
        await asyncio.sleep(2.0)
        case.equal(len(conn.handled), count, "handled-late",
                   "nothing is handled after the end")
    case.expect(conn.disabled, "enabled", "stays disabled")


def scripted_case(case):
    """Queue-based connections."""

    rng = case.rng

    async def body():
        conn = Scripted(case, Script(rng))
        seen = {"restarts": [], "restart_attempts": []}
        for name, got in seen.items():
            prim = conn.env.field_or_channel(name).raw
            prim.register_callback(lambda _, new, got=got: got.append(new))

        runs = rng.randint(1, 4)
        restarts = 0
        attempts = 0
        for i in range(runs):
            script = Script(rng)
            if i == 0:
                await one_run(case, conn, script, True)
                continue
            failures = rng.choice([0, 0, 1, 3])
            conn.plan = [
                rng.choice([False, "error"]) for _ in range(failures)
            ] + [True]
            attempts += failures + 1
            restarts += 1
            await one_run(case, conn, script, False)
            case.equal(
                (conn.env.value("restarts"),
                 conn.env.value("restart_attempts")),
                (restarts, attempts), "restart-counters", "after a restart")
            case.equal(conn.restart_calls, attempts, "restart-calls",
                       "attempts")
        case.equal(seen["restarts"], list(range(1, restarts + 1)),
                   "restart-callbacks", "restarts")
        case.equal(seen["restart_attempts"], list(range(1, attempts + 1)),
                   "restart-callbacks", "restart_attempts")

        # Giving up, or being interrupted while waiting.
        kind = rng.choice(["give_up", "cancel", "stop", "none"])
        released = []
        if kind == "give_up":
            case.event("gave_up")
            conn.plan = [False] * 50
            tries = rng.randint(1, 5)
            calls = conn.restart_calls
            start = asyncio.get_running_loop().time()
            waiter = watch(conn, released)
            await conn.process(backoff=ExponentialBackoff(
                interval=0.1, max_sleep=1.0, max_tries=tries))
            spent = asyncio.get_running_loop().time() - start
            case.equal(conn.restart_calls - calls, tries, "give-up",
                       "attempts before giving up")
            want = sum(min(0.1 * 2**x, 1.0) for x in range(tries - 1))
            case.expect(abs(spent - want) < 0.05, "give-up-time",
                        f"{tries} attempts took {spent}, not {want}")
        elif kind in ("cancel", "stop"):
            case.event("cancelled_restart")
            conn.plan = [False] * 50
            waiter = watch(conn, released)
            stop = asyncio.Event()
            task = asyncio.create_task(conn.process(stop_sig=stop))
            await asyncio.sleep(rng.choice([0.01, 0.15, 2.0]))
            if kind == "cancel":
                task.cancel()
            else:
                stop.set()
            await asyncio.wait([task], timeout=30)
            case.expect(task.done(), "restart-ends", f"{kind} ends it")
        if kind != "none":
            await hops(6)
            case.expect(conn.disabled, "enabled", "stays disabled")
            case.equal(released, [True], "initialized-waiters",
                       f"released after {kind}")

    vloop.run(body(), grace=0, limit=40000)


def memory_case(case):
    """TCP connections with an in-memory transport."""

    rng = case.rng

    async def body():
        script = Script(rng)
        conn = Memory.make(case, script)
        await one_run(case, conn, script, True)
        case.expect(conn.parts[0].closed, "transport-closed", "closed")

    vloop.run(body(), grace=0, limit=40000)


def tcp_case(case):
    """TCP clients of a real (raw) server."""

    rng = case.rng

    class Client(TcpConnection):
        seen = b""
        runs = 0

        async def async_init(self):
            self.runs += 1
            return True

        async def process_binary(self, data):
            self.seen += data
            if b"!" in data:
                if rng.random() < 0.5:
                    raise Planned("handler")
                return False
            return True

    async def body():
        loop = asyncio.get_running_loop()
        listener = socket.socket()
        listener.setblocking(False)
        listener.bind(("127.0.0.1", 0))
        listener.listen(16)
        port = listener.getsockname()[1]
        client = await Client.create_connection(host="127.0.0.1", port=port)
        peers = []

        async def accept():
            sock, _ = await loop.sock_accept(listener)
            peers.append(sock)
            return sock

        peer = await accept()
        task = asyncio.create_task(client.process())
        total = rng.randint(1, 4)
        for i in range(total):
            case.event("tcp_runs")
            await client.initialized.wait()
            case.equal(client.runs, i + 1, "tcp-runs", "initialized once")
            client.seen = b""
            data = rng.randbytes(rng.randint(1, 50)).replace(b"!", b"?")
            await loop.sock_sendall(peer, data)
            await nets.settle(lambda: len(client.seen) >= len(data))
            case.equal(client.seen, data, "tcp-data",
                       f"messages are processed in run {i}")
            case.expect(not client.disabled, "tcp-enabled", "enabled")

            fault = rng.choice(
                ["disable", "peer", "reset", "handler", "cancel", "stuck"]
            )
            case.distinct((i, fault, len(data)))
            old = peer
            if fault == "disable":
                client.disable("test")
            elif fault == "peer":
                peer.close()
            elif fault == "reset":
                peer.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                b"\1\0\0\0\0\0\0\0")
                peer.close()
            elif fault == "handler":
                await loop.sock_sendall(peer, b"!")
            elif fault == "cancel":
                task.cancel()
            else:
                # The old transport can't be flushed until later.
                client.send_binary(bytes(8 * 2**20))
                client.disable("test")
            done, _ = await asyncio.wait([task], timeout=30)
            case.expect(done, "tcp-end", f"{fault} ends the connection")
            if not task.cancelled():
                case.expect(task.exception() is None, "tcp-raised",
                            f"{task.exception()!r}")
            case.expect(client.disabled and client.exited.is_set(),
                        "tcp-disabled", fault)
            if i + 1 == total:
                break
            case.event("restarts")
            task = asyncio.create_task(client.process())
            peer = await accept()
            await client.initialized.wait()
            case.equal(client.env.value("restarts"), i + 1,
                       "restart-counters", "restarts")
            if fault == "stuck":
                case.event("late_loss")
                old.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                               b"\1\0\0\0\0\0\0\0")
                old.close()
                await asyncio.sleep(0.2)
                for _ in range(40):
                    await asyncio.sleep(0.001)
                case.expect(not client.disabled, "late-loss",
                            "the previous transport's end is ignored")
        client.disable("test")
        await asyncio.wait([task], timeout=30)
        for item in peers:
            item.close()
        if rng.random() < 0.3:
            # Nothing is listening anymore.
            listener.close()
            case.event("gave_up")
            case.event("restart_failures", 3)
            before = client.env.value("restart_attempts")
            await client.process(backoff=ExponentialBackoff(max_tries=3))
            case.expect(client.disabled, "enabled", "nothing to connect to")
            case.expect(client.initialized.is_set(), "initialized-waiters",
                        "released after giving up")
            case.equal(client.env.value("restart_attempts"), before + 3,
                       "restart-counters", "attempts")
        listener.close()

    vloop.run(body(), grace=0.0005)


def udp_case(case):
    """UDP connections."""

    rng = case.rng

    class Conn(UdpConnection):
        inits = 0
        extras = 0

        def init(self):
            self.seen = []

        def disable_extra(self):
            self.extras += 1

        async def async_init(self):
            self.inits += 1
            return True

        async def process_datagram(self, data, addr):
            self.seen.append(data)
            if data == b"raise":
                raise Planned("handler")
            return data != b"false"

    async def body():
        loop = asyncio.get_running_loop()
        peer = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        peer.setblocking(False)
        peer.bind(("127.0.0.1", 0))
        conn = await Conn.create_connection(
            remote_addr=("127.0.0.1", peer.getsockname()[1]))
        task = asyncio.create_task(conn.process())
        for i in range(rng.randint(1, 3)):
            case.event("udp_runs")
            await conn.initialized.wait()
            case.equal((conn.inits, conn.extras), (i + 1, i), "udp-runs",
                       "hooks run once per run")
            conn.seen.clear()
            conn.sendto(b"hello")
            data, addr = await loop.sock_recvfrom(peer, 100)
            case.equal(data, b"hello", "udp-data", "sent")
            peer.sendto(b"back", addr)
            await nets.settle(lambda: conn.seen)
            case.equal(conn.seen, [b"back"], "udp-data",
                       f"processed in run {i}")
            fault = rng.choice(["disable", "cancel", "raise", "false"])
            case.distinct((i, fault))
            if fault == "disable":
                conn.disable("test")
            elif fault == "cancel":
                task.cancel()
            else:
                peer.sendto(fault.encode(), addr)
            done, _ = await asyncio.wait([task], timeout=30)
            case.expect(done, "udp-end", f"{fault} ends the connection")
            case.expect(conn.disabled and conn.exited.is_set(),
                        "udp-disabled", fault)
            task = asyncio.create_task(conn.process())
            case.event("restarts")
            await conn.initialized.wait()
            case.equal(conn.env.value("restarts"), i + 1,
                       "restart-counters", "restarts")
        # Errors reported by the network disable the connection.
        peer.close()
        for _ in range(50):
            if conn.disabled:
                break
            conn.sendto(b"x")
            await asyncio.sleep(0.001)
        case.expect(conn.disabled, "udp-error",
                    "disabled when nothing is listening")
        done, _ = await asyncio.wait([task], timeout=30)
        case.expect(done, "udp-end", "an error ends the connection")

    vloop.run(body(), grace=0.0005)


def ws_case(case):
    """WebSocket connections end together."""

    rng = case.rng

    class Conn(WebsocketConnection):
        extras = 0

        def disable_extra(self):
            self.extras += 1

        async def process_text(self, data):
            if data == "raise":
                raise Planned("handler")
            return data != "false"

        async def process_binary(self, data):
            await asyncio.sleep(HANG)

    async def body():
        async with Conn.create_pair() as ends:
            stop = asyncio.Event()
            tasks = [
                asyncio.create_task(x.process(stop_sig=stop)) for x in ends
            ]
            for conn in ends:
                case.event("ws_runs")
                await conn.initialized.wait()
                case.event("waiters")
            index = rng.randrange(2)
            conn, peer = ends[index], ends[1 - index]
            for _ in range(rng.randrange(3)):
                peer.send_text("hi")
            fault = rng.choice(
                ["disable", "cancel", "raise", "false", "stop", "hung",
                 "close"]
            )
            case.distinct((index, fault))
            await hops(rng.randrange(20))
            if fault == "disable":
                conn.disable("test")
            elif fault == "cancel":
                tasks[index].cancel()
            elif fault in ("raise", "false"):
                peer.send_text(fault)
            elif fault == "stop":
                stop.set()
            elif fault == "close":
                await conn.close()
            else:
                peer.send_binary(b"x")
                await asyncio.sleep(0.1)
                conn.disable("test")
            done, _ = await asyncio.wait(tasks, timeout=120)
            case.equal(len(done), 2, "ws-end",
                       f"{fault} ends both connections")
            for item in ends:
                case.expect(item.disabled and item.exited.is_set(),
                            "ws-disabled", fault)
                case.equal(item.extras, 1, "disable-extra", fault)

    vloop.run(body(), grace=0.0005)


KINDS = {
    "scripted": (scripted_case, 700, 20000),
    "memory": (memory_case, 500, 15000),
    "tcp": (tcp_case, 100, 2000),
    "udp": (udp_case, 50, 1000),
    "ws": (ws_case, 50, 1000),
}
