"""C38: secured connections deliver like others, privately, to who's meant."""

import asyncio
import contextlib
import json
import logging
import ssl

from lib import core

from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.backoff import ExponentialBackoff
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.websocket import WebsocketConnection

PROPERTY = "C38"
RULE = (
    "random certificates, trust and host names on both sides of TCP and "
    "websocket connections and of configured servers, with random messages, "
    "restarts and closes through a relay that records, splits, changes or "
    "cuts what's transmitted; non-trivial = distinct histories"
)
REQUIRED = {"tcp": 100, "ws": 200, "apps": 20, "accepted": 250,
            "rejected": 100, "messages": 1200, "restarts": 80, "changed": 15,
            "cut": 15, "plain": 50, "relayed_bytes": 50000000, "requests": 60,
            "clients": 40, "private": 800, "readable": 60}
TLS = core.VERIF / "lib" / "tls"
LOG = logging.getLogger("verif.c38")
LOG.propagate = False
LOG.addHandler(logging.NullHandler())


def tls(name):
    """A certificate's or key's path."""
    return str(TLS / name)


def serving(rng):
    """How a server's secured, who it is and who signed it."""

    name = rng.choice(["good", "good", "good", "other", "elsewhere"])
    if name == "good" and rng.random() < 0.3:
        return name, {"certfile": tls("both.pem")}
    return name, {"certfile": tls(f"{name}.cert"),
                  "keyfile": tls(f"{name}.key")}


def trusting(rng):
    """What a client trusts."""

    roll = rng.random()
    if roll < 0.35:
        return "good", {"cafile": tls("good.cert")}
    if roll < 0.5:
        return "good", {"cadata": (TLS / "good.cert").read_text()}
    if roll < 0.6:
        return "good", {"capath": tls("ca")}
    if roll < 0.7:
        return "good", {"cafile": tls("good.cert"), "use_ssl": True}
    if roll < 0.8:
        return "other", {"cafile": tls("other.cert")}
    if roll < 0.9:
        return "elsewhere", {"cafile": tls("elsewhere.cert")}
    return None, {"use_ssl": True}


class Relay:
    """Something between a client and a server."""

    def __init__(self, case, target):
        self.case = case
        self.rng = case.rng
        self.target = target
        # (What every stream transmitted.)
        self.seen = []
        self.server = None
        self.writers = []
        self.tasks = []
        # What's done with transmitted data.
        self.fault = None

    async def start(self):
        """Start relaying."""
        self.server = await asyncio.start_server(
            self.accept, host="127.0.0.1", port=0
        )
        return self.server.sockets[0].getsockname()[1]

    async def accept(self, reader, writer):
        """Handle a connection."""
        there, back = await asyncio.open_connection("127.0.0.1", self.target)
        self.writers += [writer, back]
        for item in ((reader, back), (there, writer)):
            self.tasks.append(asyncio.create_task(self.copy(*item)))

    async def copy(self, reader, writer):
        """Pass data on."""
        seen = bytearray()
        self.seen.append(seen)
        try:
            while True:
                data = await reader.read(
                    self.rng.choice([1, 7, 500, 1 << 16, 1 << 16])
                )
                if not data:
                    break
                seen += data
                self.case.event("relayed_bytes", len(data))
                if self.fault == "cut":
                    data = data[:len(data) // 2]
                elif self.fault == "change":
                    data = bytearray(data)
                    data[self.rng.randrange(len(data))] ^= 1 << (
                        self.rng.randrange(8)
                    )
                writer.write(bytes(data))
                if self.fault:
                    self.fault = "done" if self.fault == "change" else "cut"
                if self.fault == "cut":
                    break
                await writer.drain()
        except (OSError, asyncio.CancelledError):
            pass
        finally:
            writer.close()

    async def stop(self):
        """Stop relaying."""
        for item in self.tasks:
            item.cancel()
        for item in self.writers:
            item.close()
        self.server.close()


@contextlib.asynccontextmanager
async def relaying(case, listening, stop, managing):
    """A relay in front of a server (which waits for its connections)."""

    relay = Relay(case, list(listening.sockets)[0].getsockname()[1])
    try:
        yield relay, await relay.start()
    finally:
        await relay.stop()
        stop.set()
        await managing


class Recorder:
    """Remembers messages."""

    def init(self):
        """Initialize this instance."""
        super().init()
        self.got = []

    async def process_text(self, data):
        """Handle text."""
        self.got.append(data)
        return True

    async def process_binary(self, data):
        """Handle data."""
        self.got.append(bytes(data))
        return True


class Tcp(Recorder, TcpConnection):
    """A TCP connection that remembers data."""


class Websocket(Recorder, WebsocketConnection):
    """A websocket connection that remembers messages."""


async def until(func, seconds=10.0):
    """Wait for something."""
    for _ in range(int(seconds / 0.005)):
        if func():
            return True
        await asyncio.sleep(0.005)
    return bool(func())


def private(case, relay, markers, secure):
    """What's transmitted isn't readable."""
    for marker in markers:
        case.equal(any(marker in x for x in relay.seen), not secure,
                   "readable")
        case.event("private" if secure else "readable")


def payload(case, markers, text=False):
    """A random message."""
    rng = case.rng
    # (Masking and compression aren't protection.)
    marker = b"marker%020d" % rng.randrange(10**20)
    markers.append(marker)
    out = marker
    size = rng.choice([0, 1, 100, 5000, 70000, 300000])
    out += rng.randbytes(size).hex().encode() if text else rng.randbytes(size)
    return out.decode() if text else out


async def tcp(case, host, name, server, trust, client):
    """A TCP connection."""

    rng = case.rng
    conns = []
    manager = ConnectionManager()
    stop = asyncio.Event()

    def accepted(conn):
        conns.append(conn)
        manager.queue.put_nowait(conn)

    managing = asyncio.create_task(manager.manage(stop))
    markers = []
    async with (
        Tcp.serve(accepted, host="127.0.0.1", port=0, **server) as listening,
        relaying(case, listening, stop, managing) as (relay, port),
    ):
        want = valid(host, name, trust, client) if server else not client
        conn = None
        try:
            conn = await Tcp.create_connection(
                host=host, port=port,
                backoff=ExponentialBackoff(interval=0.001, max_tries=2),
                **client,
            )
        except (AssertionError, OSError, ValueError) as exc:
            case.note(repr(exc))
        if conn is not None and server and not client:
            # (Nothing that's sent means anything.)
            case.event("plain")
            conn.send_binary(b"GET / HTTP/1.0\r\n\r\n" * 4)
            task = asyncio.create_task(conn.process())
            case.expect(await until(lambda: conn.disabled), "plain-open")
            await task
            case.equal([x.got for x in conns if x.got], [], "plain")
            await conn.close()
            return
        case.equal(conn is not None, want, "connected",
                   f"{name} trusting {trust} at {host}")
        if conn is None:
            await asyncio.sleep(0.01)
            case.equal([x.got for x in conns if x.got], [], "rejected-data")
            case.event("rejected")
            return
        case.event("accepted")
        case.equal(conn.is_ssl, bool(server), "is-ssl")
        task = asyncio.create_task(conn.process())
        for again in range(rng.choice([1, 1, 2])):
            case.expect(await until(lambda: len(conns) == again + 1),
                        "accepted")
            peer = conns[-1]
            case.equal(peer.is_ssl, bool(server), "peer-is-ssl")
            sent = {conn: b"", peer: b""}
            before = {x: len(b"".join(x.got)) for x in sent}
            for _ in range(rng.randint(1, 8)):
                item = rng.choice([conn, peer])
                data = payload(case, markers)
                item.send_binary(data)
                sent[item] += data
                case.event("messages")
                if rng.random() < 0.3:
                    await asyncio.sleep(0)
            for item, other in ((conn, peer), (peer, conn)):
                await until(
                    lambda other=other, item=item:
                    len(b"".join(other.got)) - before[other]
                    >= len(sent[item])
                )
                case.equal(
                    b"".join(other.got)[before[other]:] == sent[item], True,
                    "delivered", f"{len(sent[item])} bytes",
                )
            case.equal(peer.metrics.rx.bytes.value, len(sent[conn]),
                       "rx-bytes")
            case.equal(peer.metrics.tx.bytes.value, len(sent[peer]),
                       "tx-bytes")
            if again == 0 and rng.random() < 0.3:
                await fault(case, relay, conn, peer, sent, before)
                break
            rng.choice([conn, peer]).disable("test")
            case.expect(await until(lambda: conn.disabled and peer.disabled),
                        "both-end")
            await task
            if again == 0:
                task = asyncio.create_task(conn.process())
                case.expect(await until(lambda: not conn.disabled), "restart")
                case.equal(conn.is_ssl, bool(server), "is-ssl-again")
                case.event("restarts")
        conn.disable("done")
        await task
        await conn.close()
        private(case, relay, markers, bool(server))
    case.event("tcp")


async def fault(case, relay, conn, peer, sent, before):
    """What's changed isn't delivered."""

    kind = case.rng.choice(["change", "cut"])
    relay.fault = kind
    data = case.rng.randbytes(5000)
    item, other = case.rng.sample([conn, peer], 2)
    item.send_binary(data)
    secure = item.is_ssl
    ended = await until(
        lambda: (conn.disabled or peer.disabled)
        or not secure and len(b"".join(other.got)) - before[other]
        >= len(sent[item]) + 5000, 10.0,
    )
    case.expect(ended, "fault-ended", kind)
    got = b"".join(other.got)[before[other] + len(sent[item]):]
    if secure or kind == "cut":
        case.equal(got == data[:len(got)], True, "fault-delivered", kind)
        case.expect(len(got) < len(data), "fault-complete", kind)
    case.event("changed" if kind == "change" else "cut")


def valid(host, name, trust, client):
    """Whether or not a client should connect."""
    return bool(client) and name == trust and (
        name != "elsewhere" and host in ("localhost", "127.0.0.1")
    )


async def websocket(case, host, name, server, trust, client):
    """A websocket connection."""

    rng = case.rng
    conns = []
    manager = ConnectionManager()
    stop = asyncio.Event()

    async def accepted(conn):
        conns.append(conn)
        return True

    managing = asyncio.create_task(manager.manage(stop))
    markers = []
    async with (
        Websocket.serve(
            accepted, stop_sig=stop, manager=manager, host="127.0.0.1",
            port=0, compression=None, **server
        ) as listening,
        relaying(case, listening, stop, managing) as (relay, port),
    ):
        conn = None
        scheme = "wss" if client else "ws"
        if client and rng.random() < 0.5:
            # (It's implied.)
            client.pop("use_ssl", None)
        want = valid(host, name, trust, client or trust) if server else False
        if not server:
            want = scheme == "ws"
        elif scheme == "ws":
            want = False
        elif trust is None:
            want = False
        else:
            want = valid(host, name, trust, True)
        try:
            conn = await Websocket.create_connection(
                f"{scheme}://{host}:{port}", compression=None,
                open_timeout=20.0, **client,
            )
        except Exception as exc:  # pylint: disable=broad-exception-caught
            case.note(repr(exc))
        case.equal(conn is not None, want, "connected",
                   f"{name} trusting {trust} at {host} ({scheme})")
        if conn is None:
            case.equal(len(conns), 0, "rejected-accepted")
            case.event("rejected" if client else "plain")
        else:
            case.event("accepted")
            task = asyncio.create_task(conn.process())
            case.expect(await until(lambda: len(conns) == 1), "accepted")
            peer = conns[0]
            sent = {conn: [], peer: []}
            kinds = {}
            for item in sent:
                kinds[item] = rng.random() < 0.5
            for _ in range(rng.randint(1, 8)):
                item = rng.choice([conn, peer])
                data = payload(case, markers, text=kinds[item])
                if item is conn:
                    # (Clients' messages are masked.)
                    markers.pop()
                (item.send_text if kinds[item] else item.send_binary)(data)
                sent[item].append(data)
                case.event("messages")
            for item, other in ((conn, peer), (peer, conn)):
                await until(
                    lambda other=other, item=item:
                    len(other.got) >= len(sent[item])
                )
                case.equal(other.got == sent[item], True, "delivered",
                           f"{len(other.got)} of {len(sent[item])}")
            private(case, relay, markers, bool(server))
            rng.choice([conn, peer]).disable("test")
            case.expect(await until(lambda: conn.disabled and peer.disabled),
                        "both-end")
            await task
            await conn.close()
    case.event("ws")


def run_connection(kind):
    """A kind of connection."""

    def run(case):
        rng = case.rng
        name, server = serving(rng)
        trust, client = trusting(rng)
        if rng.random() < 0.1:
            server = {}
        if rng.random() < 0.1:
            client = {}
            trust = None
        if rng.random() < 0.4:
            # (Mostly something that works.)
            name = "good"
            server = {"certfile": tls("good.cert"), "keyfile": tls("good.key")}
            trust, client = "good", {"cafile": tls("good.cert")}
        elif rng.random() < 0.15:
            # (Trusted, but someone else.)
            name = trust = "elsewhere"
            server = {"certfile": tls("elsewhere.cert"),
                      "keyfile": tls("elsewhere.key")}
            client = {"cafile": tls("elsewhere.cert")}
        if client and rng.random() < 0.3:
            # (Who the client is doesn't change whom it trusts.)
            client = {**client, "certfile": tls("other.cert"),
                      "keyfile": tls("other.key")}
        host = rng.choice(["localhost", "127.0.0.1"])
        case.distinct((kind, name, trust, host, sorted(server),
                       sorted(client), rng.getstate()[1][:3]))
        if kind == "tcp" and not server and client:
            # (Nobody answers a hello.)
            client, trust = {}, None
        if kind == "ws" and not server:
            client, trust = {}, None

        async def main():
            loop = asyncio.get_running_loop()
            loop.set_exception_handler(lambda *_: None)
            await KINDS_OF[kind](case, host, name, server, trust, client)

        try:
            asyncio.run(asyncio.wait_for(main(), 120.0))
        except (asyncio.TimeoutError, TimeoutError) as exc:
            raise core.Violation("stuck", "never ended") from exc

    return run


KINDS_OF = {"tcp": tcp, "ws": websocket}


async def https(port, method, path, host="localhost"):
    """A request, and its response's status and data."""

    reader, writer = await asyncio.open_connection(
        "127.0.0.1", port, server_hostname=host,
        ssl=ssl.create_default_context(cafile=tls("good.cert")),
    )
    try:
        writer.write(
            f"{method} {path} HTTP/1.1\r\nHost: localhost\r\n\r\n".encode()
        )
        await writer.drain()
        head = (await reader.readuntil(b"\r\n\r\n")).decode().split("\r\n")
        headers = {}
        for line in head[1:]:
            if line:
                key, _, value = line.partition(":")
                headers[key.strip().lower()] = value.strip()
        body = await reader.readexactly(
            int(headers.get("content-length", 0))
        )
        return int(head[0].split()[1]), headers, body
    finally:
        writer.close()


def run_app(case):
    """A configured application."""

    rng = case.rng
    secured = {"certfile": tls("good.cert"), "keyfile": tls("good.key")}
    data = {
        "includes": ["package://runtimepy/factories.yaml"],
        "ports": [{"name": x, "type": "tcp"} for x in
                  ("https_server", "json", "wss")],
        "servers": [
            {"factory": "runtimepy_http",
             "kwargs": {"port": "$https_server", **secured}},
            {"factory": "tcp_json", "kwargs": {"port": "$json", **secured}},
            {"factory": "websocket_json", "kwargs":
             {"host": "127.0.0.1", "port": "$wss", **secured}},
        ],
        "clients": [],
        "structs": [{"factory": "sample_struct", "name": "things"}],
    }
    for idx in range(rng.randint(1, 3)):
        item = {"name": f"client{idx}", "defer": True}
        trust = {"cafile": tls("good.cert")}
        if rng.random() < 0.5:
            item["factory"] = "tcp_json"
            item["kwargs"] = {"host": "localhost", "port": "$json", **trust}
        else:
            item["factory"] = "websocket_json"
            item["args"] = ["wss://localhost:$wss"]
            item["kwargs"] = trust
        data["clients"].append(item)
    case.distinct(json.dumps([x["factory"] for x in data["clients"]]),
                  rng.random())
    path = case.scratch / "config.json"
    path.write_text(json.dumps(data), encoding="utf-8")
    done = []

    async def use(info):
        case.equal(len(info.connections), len(data["clients"]), "clients")
        struct = info.structs["things"]
        names = [x for x in struct.env.names if x.endswith(".int")]
        for _ in range(4):
            chan, value = rng.choice(names), rng.randint(1, 200)
            if rng.random() < 0.5:
                status, _, body = await https(
                    info.ports["https_server"], "POST",
                    f"/things/set/{chan}/{value}",
                )
                case.equal(status, 200, "status")
                case.equal(json.loads(body)["success"], True, "posted")
                case.event("requests")
            else:
                conn = rng.choice(sorted(info.connections.items()))[1]
                if isinstance(conn, TcpConnection):
                    case.equal(conn.is_ssl, True, "client-is-ssl")
                result = await conn.channel_command(
                    f"set {chan} {value}", environment="things"
                )
                case.equal(bool(result), True, "command", str(result))
                case.event("clients")
            case.equal(struct.env.value(chan), value, "value")
        status, headers, body = await https(
            info.ports["https_server"], "GET", "/json"
        )
        case.equal(status, 200, "json-status")
        case.equal("things" in json.loads(body)["environments"], True, "json")
        case.event("requests")
        # Others aren't served.
        reader, writer = await asyncio.open_connection(
            "127.0.0.1", info.ports["https_server"]
        )
        writer.write(b"GET /json HTTP/1.1\r\nHost: localhost\r\n\r\n" * 3)
        got = b""
        try:
            got = await asyncio.wait_for(reader.read(1 << 20), 20.0)
        except ConnectionError:
            pass
        case.expect(b"HTTP" not in got and b"things" not in got, "plain-http",
                    repr(got[:50]))
        writer.close()
        case.event("plain")

    async def app(info):
        try:
            await use(info)
            done.append(True)
        except BaseException as exc:
            done.append(exc)
            raise
        return 0

    async def main():
        asyncio.get_running_loop().set_exception_handler(lambda *_: None)
        arb = ConnectionArbiter(logger=LOG)
        await arb.load_configs([path])
        case.equal(await arb.app(app), 0, "result")

    previous = RuntimepyServerConnection.json_data
    RuntimepyServerConnection.json_data = {}
    try:
        asyncio.run(asyncio.wait_for(main(), 90.0))
    except (asyncio.TimeoutError, TimeoutError) as exc:
        if not done:
            raise core.Inconclusive("the application took too long") from exc
        raise
    finally:
        RuntimepyServerConnection.json_data = previous
        if done and done[0] is not True:
            raise done[0]
    case.equal(len(done), 1, "app-ran")
    case.event("apps")


KINDS = {
    "tcp": (run_connection("tcp"), 500, 6000),
    "ws": (run_connection("ws"), 500, 6000),
    "app": (run_app, 60, 600),
}
