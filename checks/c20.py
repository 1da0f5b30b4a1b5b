"""C20: the connection manager runs every connection and leaks none."""

import asyncio
import logging
import socket

from lib import nets, vloop

from runtimepy.net.backoff import ExponentialBackoff
from runtimepy.net.connection import Connection
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.tcp.connection import EchoTcpConnection, TcpConnection
from runtimepy.net.websocket import EchoWebsocketConnection

PROPERTY = "C20"
RULE = (
    "random numbers of scripted connections arrive at a manager at random "
    "logical times, end in random ways, restart (or fail to) and are "
    "stopped; processing intervals, restart times, shutdown and left-over "
    "tasks are compared with the supervision model; also TCP and WebSocket "
    "servers with raw clients; non-trivial = distinct schedules"
)
REQUIRED = {"managed": 1000, "processed": 1500, "restarts": 500,
            "failed_attempts": 500, "auto": 400, "ended_early": 30,
            "slow_close": 100, "failed_close": 50, "hung_close": 30,
            "stops": 200, "second_manage": 50, "reused": 40,
            "channel_changed": 50, "backoffs": 100, "backoff_sleeps": 500,
            "gave_up": 50, "tcp_clients": 80, "ws_clients": 40,
            "cannot_restart": 10, "metrics": 100, "arrived_late": 200,
            "never_ends": 200}
LOG = logging.getLogger("verif.c20")
LOG.propagate = False
LOG.addHandler(logging.NullHandler())

DELAYS = [0.0] + [min(0.1 * 2**x, 10.0) for x in range(19)]


class Planned(Exception):
    """An expected failure."""


class Scripted(Connection):
    """A connection whose life is scripted."""

    def __init__(self, case, rng, number):
        self.case = case
        self.number = number
        self.active = 0
        self.overlaps = 0
        self.starts = []
        self.ends = []
        self.attempts = []  # (time, succeeded, run)
        self.inits = 0
        self.closes = 0
        # Run durations; None lasts until it's stopped.
        self.lives = [
            rng.choice([0.01, 0.3, 2.0, 7.0, None])
            for _ in range(rng.randint(1, 3))
        ]
        self.how = rng.choice(
            ["eof", "read_error", "init_false", "init_error", "task",
             "disable"]
        )
        self.close_how = rng.choice(
            ["ok", "ok", "ok", "slow", "slow", "error", "hang"]
        )
        self.plan = [
            rng.random() < 0.4 for _ in range(rng.choice([0, 2, 6, 30]))
        ]
        if rng.random() < 0.2:
            self.plan = [False] * 45
        self.restart_error = rng.random() < 0.5
        super().__init__(LOG)

    @property
    def now(self):
        return asyncio.get_running_loop().time()

    async def process(self, **kwargs):
        self.active += 1
        self.starts.append(self.now)
        self.case.event("processed")
        if self.active > 1:
            self.overlaps += 1
        try:
            await super().process(**kwargs)
        finally:
            self.active -= 1
            self.ends.append(self.now)

    async def life(self):
        index = min(self.inits, len(self.lives)) - 1
        span = self.lives[index] if self.inits <= len(self.lives) else None
        if span is None:
            self.case.event("never_ends")
            span = 1e6
        await asyncio.sleep(span)

    async def async_init(self):
        self.inits += 1
        if self.how.startswith("init_"):
            await self.life()
            if self.how == "init_error":
                raise Planned("init")
            return False
        return True

    async def _await_message(self):
        if self.how.startswith("init_"):
            await asyncio.sleep(1e6)
        await self.life()
        if self.how == "read_error":
            raise Planned("read")
        if self.how == "disable":
            self.disable("planned")
        return None

    async def restart(self):
        good = self.plan.pop(0) if self.plan else True
        self.attempts.append((self.now, good, len(self.starts)))
        self.case.event("restarts" if good else "failed_attempts")
        if not good and self.restart_error:
            raise Planned("restart")
        return good

    async def _send_text_message(self, data):
        pass

    async def _send_binay_message(self, data):
        pass

    async def close(self):
        self.closes += 1
        if self.close_how == "slow":
            self.case.event("slow_close")
            await asyncio.sleep(0.4)
        elif self.close_how == "error":
            self.case.event("failed_close")
            raise Planned("close")
        elif self.close_how == "hang":
            self.case.event("hung_close")
            await asyncio.sleep(1e6)


class Other(Scripted):
    """Another kind of connection."""


def check_attempts(case, conn):
    """Restart attempts are spaced by the documented backoff."""

    for number, start in enumerate(conn.starts):
        mine = [x[:2] for x in conn.attempts if x[2] == number + 1]
        when = start
        for index, (at, good) in enumerate(mine):
            case.expect(index < len(DELAYS), "too-many-attempts",
                        f"{len(mine)} attempts in one run")
            when += DELAYS[index]
            case.expect(
                abs(at - when) < 0.005, "restart-delay",
                f"attempt {index} at {at - start:.3f}, expected at "
                f"{when - start:.3f} after the run began",
            )
            when = at
            if good:
                case.equal(index, len(mine) - 1, "restart-once",
                           "a successful restart ends the attempts")
    case.equal(conn.overlaps, 0, "overlap",
               "a connection was processed twice at once")


def manager_case(case):
    """Scripted connections with one manager."""

    rng = case.rng

    async def session(manager):
        loop = asyncio.get_running_loop()
        stop = asyncio.Event()
        before = set(asyncio.all_tasks())
        count = rng.randint(1, 7)
        conns = [
            (Other if rng.random() < 0.3 else Scripted)(case, rng, i)
            for i in range(count)
        ]
        arrivals = {}
        autos = {}
        dead = set()
        schedule = []
        for conn in conns:
            case.event("managed")
            auto = rng.random() < 0.5
            autos[conn] = auto
            if auto:
                case.event("auto")
                conn.env.set("auto_restart", True)
            at = rng.choice([-1, 0, 0.05, 0.2, 1.0, 5.0])
            schedule.append((at, conn))
            if rng.random() < 0.08:
                case.event("ended_early")
                conn.disable("before")
                dead.add(conn)
        schedule.sort(key=lambda x: x[0])
        length = rng.choice([0.5, 3.0, 20.0, 120.0, 300.0])
        case.distinct(tuple(
            (x, tuple(y.lives), y.how, y.close_how, len(y.plan), autos[y])
            for x, y in schedule))

        begin = loop.time()
        for at, conn in schedule:
            if at < 0:
                manager.queue.put_nowait(conn)
                arrivals[conn] = begin
        task = asyncio.create_task(manager.manage(stop))
        second = None
        if rng.random() < 0.3:
            case.event("second_manage")
            await asyncio.sleep(0)
            second = asyncio.create_task(manager.manage(stop))

        changes = []
        for at, conn in schedule:
            if at >= 0:
                if begin + at > loop.time():
                    await asyncio.sleep(begin + at - loop.time())
                case.event("arrived_late")
                manager.queue.put_nowait(conn)
                arrivals[conn] = loop.time()
            if rng.random() < 0.15:
                # Stop asking for restarts.
                case.event("channel_changed")
                other = rng.choice(conns)
                other.env.set("auto_restart", False)
                if autos[other]:
                    changes.append((other, loop.time()))
        if begin + length > loop.time():
            await asyncio.sleep(begin + length - loop.time())
        await asyncio.sleep(0.0123)

        # Everything that runs is known to the manager.
        running = [
            x for x in conns
            if x in arrivals and x.active and not x.disabled
        ]
        listed = list(manager.by_type(Scripted))
        for conn in running:
            case.equal(listed.count(conn), 1, "listed",
                       "a processed connection is listed once")
        for conn in manager.by_type(Other):
            case.expect(isinstance(conn, Other), "by-type", "kinds")
        case.expect(manager.num_connections >= len(running), "count",
                    "number of connections")
        for conn in running:
            conn.metrics.tx.increment(10)
            conn.metrics.tx.increment(10)
        manager.poll_metrics()
        case.event("metrics")
        manager.reset_metrics()
        for conn in running:
            case.equal(conn.metrics.tx.bytes.value, 0, "reset-metrics",
                       "metrics are reset")

        # Was every connection processed?
        changed = {x for x, _ in changes}
        for conn in conns:
            if conn in dead and not autos[conn]:
                case.equal(len(conn.starts), 0, "started-disabled",
                           "an ended connection isn't processed")
                case.expect(conn.initialized.is_set(), "initialized",
                            "nothing waits for it")
                continue
            if conn in dead and conn in changed:
                continue
            case.expect(
                conn.starts and abs(conn.starts[0] - arrivals[conn]) < 0.01,
                "not-processed",
                f"connection arrived at {arrivals[conn] - begin} but was "
                f"started at {[x - begin for x in conn.starts]}",
            )
            if conn.how != "never" and conn not in dead:
                case.expect(conn.inits >= 1, "not-initialized", "init runs")
            if not autos[conn]:
                case.equal(len(conn.starts), 1, "restarted",
                           "only processed once")
            elif conn not in changed and conn.close_how != "hang":
                # It's either processing, or between runs (never for long).
                case.expect(conn.active == 1, "not-restarted",
                            f"{len(conn.starts)} runs, active={conn.active}")
            if conn in changed:
                when = next(y for x, y in changes if x is conn)
                late = [x for x in conn.starts[1:] if x > when + 0.001]
                case.expect(not late, "restarted",
                            "restarted after it stopped asking for that")
            check_attempts(case, conn)

        # Stop.
        case.expect(second is None or not second.done(), "no-wait",
                    "a second call waits until it's stopped")
        case.event("stops")
        start = loop.time()
        stop.set()
        done, _ = await asyncio.wait([task], timeout=30)
        case.expect(done, "no-return", "the manager returns when stopped")
        # Connections waiting to be restarted may need to be interrupted.
        case.expect(loop.time() - start <= 1.5, "slow-stop",
                    f"took {loop.time() - start}")
        case.expect(not task.cancelled() and task.exception() is None,
                    "manager-raised", f"{task}")
        if second is not None:
            await asyncio.wait([second], timeout=1)
            case.expect(second.done() and second.exception() is None,
                        "no-return", "the second call returns")
        for _ in range(10):
            await asyncio.sleep(0)
        for conn in conns:
            case.equal((conn.active, conn.disabled), (0, True), "left-over",
                       f"{conn.how} {conn.close_how} after stopping")
            case.expect(conn.overlaps == 0, "overlap", "processed once")
        left = [
            x for x in asyncio.all_tasks() - before if not x.done()
        ]
        case.expect(not left, "task-leak", f"{left}")

        # Nothing happens afterwards.
        runs = [len(x.starts) for x in conns]
        await asyncio.sleep(30)
        case.equal([len(x.starts) for x in conns], runs, "restarted",
                   "nothing runs after the manager stopped")

    async def body():
        manager = ConnectionManager()
        await session(manager)
        if rng.random() < 0.25:
            case.event("reused")
            await session(manager)

    vloop.run(body(), grace=0, limit=5000)


def backoff_case(case):
    """Delays grow to a maximum and attempts are limited."""

    rng = case.rng

    async def body():
        loop = asyncio.get_running_loop()
        interval = rng.choice([0.01, 0.1, 0.5, 3.0])
        limit = rng.choice([0.05, 1.0, 10.0, 60.0])
        tries = rng.randint(0, 25)
        kwargs = {"interval": interval, "max_sleep": limit,
                  "max_tries": tries}
        if rng.random() < 0.2:
            kwargs = {}
            interval, limit, tries = 0.1, 10.0, 20
        backoff = ExponentialBackoff(**kwargs)
        case.event("backoffs")
        case.distinct((interval, limit, tries))
        for _ in range(rng.randint(1, 2)):
            count = 0
            while not backoff.give_up:
                case.expect(count < tries, "give-up", "limited attempts")
                start = loop.time()
                await backoff.sleep()
                want = (
                    0.0 if count == 0
                    else min(interval * 2 ** (count - 1), limit)
                )
                case.event("backoff_sleeps")
                case.expect(
                    abs(loop.time() - start - want) < 1e-6, "backoff-delay",
                    f"attempt {count}: {loop.time() - start} instead of "
                    f"{want}")
                count += 1
                if rng.random() < 0.02:
                    break
            else:
                case.event("gave_up")
                case.equal(count, tries, "give-up", "attempts")
            backoff.reset()

    vloop.run(body(), grace=0, limit=100000)


class Fixed(Connection):
    """A connection that can't be restarted."""

    calls = 0

    async def process(self, **kwargs):
        self.calls += 1
        await super().process(**kwargs)

    async def _await_message(self):
        await asyncio.sleep(0.5)


def fixed_case(case):
    """Connections that can't be restarted don't busy the manager."""

    rng = case.rng

    async def body():
        manager = ConnectionManager()
        stop = asyncio.Event()
        conn = Fixed(LOG)
        conn.env.set("auto_restart", True)
        good = Scripted(case, rng, 0)
        good.lives = [None]
        case.event("cannot_restart")
        task = asyncio.create_task(manager.manage(stop))
        manager.queue.put_nowait(conn)
        manager.queue.put_nowait(good)
        await asyncio.sleep(rng.choice([1.0, 60.0]))
        case.expect(conn.calls < 60, "restart-spin",
                    f"processed {conn.calls} times")
        case.expect(good.active == 1, "not-processed", "others run")
        case.distinct(rng.random())
        stop.set()
        await asyncio.wait([task], timeout=5)
        case.expect(task.done() and task.exception() is None,
                    "no-return", "the manager returns")
        case.expect(conn.disabled and good.disabled, "left-over", "disabled")

    vloop.run(body(), grace=0, limit=5000)


def servers_case(case):
    """TCP and WebSocket servers hand their connections to a manager."""

    rng = case.rng

    async def tcp():
        stop = asyncio.Event()
        made = []
        ports = []
        manager = ConnectionManager()

        class Client(TcpConnection):
            """Restarting clients are managed, too."""

            seen = b""

            async def process_binary(self, data):
                self.seen += data
                return True

        task = asyncio.create_task(
            EchoTcpConnection.app(
                stop,
                callback=made.append,
                serving_callback=lambda x: ports.append(
                    x.sockets[0].getsockname()[1]),
                manager=manager,
                host="127.0.0.1",
                port=0,
            )
        )
        await nets.settle(lambda: ports)
        port = ports[0]
        loop = asyncio.get_running_loop()
        clients = []
        for _ in range(rng.randint(1, 6)):
            case.event("tcp_clients")
            clients.append(await nets.raw_client(port))
        for sock in list(clients):
            data = rng.randbytes(rng.randint(1, 40))
            await loop.sock_sendall(sock, data)
            got = b""
            while len(got) < len(data):
                got += await asyncio.wait_for(loop.sock_recv(sock, 100), 20)
            case.equal(got, data, "tcp-echo", "every connection is processed")
            if rng.random() < 0.3:
                sock.close()
                clients.remove(sock)
        await nets.settle(
            lambda: manager.num_connections == len(clients))
        await asyncio.sleep(0.1)
        case.equal(manager.num_connections, len(clients), "count",
                   "open connections")

        managed = None
        if rng.random() < 0.5:
            # A client that comes back whenever it's disconnected.
            managed = await Client.create_connection(
                host="127.0.0.1", port=port)
            managed.env.set("auto_restart", True)
            manager.queue.put_nowait(managed)
            for i in range(rng.randint(1, 3)):
                await managed.initialized.wait()
                managed.seen = b""
                managed.send_binary(b"data")
                await nets.settle(lambda: managed.seen == b"data")
                case.equal(managed.seen, b"data", "tcp-restart",
                           f"processes after {i} restarts")
                peer = next(
                    x for x in manager.by_type(EchoTcpConnection)
                    if x.remote_address.port == managed.local_address.port
                )
                if rng.random() < 0.5:
                    peer.disable("test")
                else:
                    managed.disable("test")
                await nets.settle(
                    lambda i=i: managed.env.value("restarts") == i + 1)
                case.equal(managed.env.value("restarts"), i + 1,
                           "tcp-restart", "restarted once")
        case.distinct((len(made), managed is not None))
        stop.set()
        await asyncio.wait([task], timeout=20)
        case.expect(task.done() and task.exception() is None, "no-return",
                    "the server returns")
        for conn in made + ([managed] if managed else []):
            case.expect(conn.disabled, "left-over", "disabled")
        for sock in clients:
            try:
                got = await asyncio.wait_for(loop.sock_recv(sock, 10), 20)
            except ConnectionError:
                got = b""
            case.equal(got, b"", "tcp-closed", "connections are closed")
            sock.close()
        probe = socket.socket()
        case.expect(probe.connect_ex(("127.0.0.1", port)) != 0,
                    "tcp-closed", "the server stops listening")
        probe.close()

    async def ws():
        stop = asyncio.Event()
        made = []
        ports = []
        manager = ConnectionManager()

        class Server(EchoWebsocketConnection):
            def init(self):
                made.append(self)

        class Client(EchoWebsocketConnection):
            def init(self):
                self.seen = []

            async def process_text(self, data):
                self.seen.append(data)
                return True

        use_app = rng.random() < 0.5
        kwargs = {"host": "127.0.0.1", "port": 0}
        if use_app:
            task = asyncio.create_task(Server.app(
                stop, manager=manager,
                serving_callback=lambda x: ports.append(
                    list(x.sockets)[0].getsockname()[1]), **kwargs))
        else:
            # Without a manager connections are processed where they're made.
            async def serve():
                async with Server.serve(stop_sig=stop, **kwargs) as server:
                    ports.append(list(server.sockets)[0].getsockname()[1])
                    await stop.wait()

            task = asyncio.create_task(serve())
        await nets.settle(lambda: ports)
        clients = []
        tasks = []
        for _ in range(rng.randint(1, 4)):
            case.event("ws_clients")
            client = await Client.create_connection(
                f"ws://127.0.0.1:{ports[0]}")
            tasks.append(asyncio.create_task(client.process()))
            clients.append(client)
        for i, client in enumerate(clients):
            client.send_text(f"hi {i}")
            await nets.settle(lambda: client.seen)
            case.equal(client.seen, [f"hi {i}"], "ws-echo", "processed")
        if use_app:
            case.equal(manager.num_connections, len(clients), "count",
                       "open connections")
        if rng.random() < 0.5:
            gone = clients[0]
            gone.disable("test")
            await asyncio.wait([tasks[0]], timeout=20)
            await nets.settle(lambda: sum(x.disabled for x in made) == 1)
            case.equal(sum(x.disabled for x in made), 1, "ws-ended",
                       "its peer ends")
        case.distinct((use_app, len(clients)))
        stop.set()
        await asyncio.wait([task, *tasks], timeout=60)
        case.expect(task.done() and task.exception() is None, "no-return",
                    "the server returns")
        for conn in made + clients:
            case.expect(conn.disabled, "left-over", "disabled")

    vloop.run(tcp() if rng.random() < 0.6 else ws(), grace=0.0005)


KINDS = {
    "manager": (manager_case, 300, 8000),
    "backoff": (backoff_case, 150, 2000),
    "fixed": (fixed_case, 20, 300),
    "servers": (servers_case, 70, 1500),
}
