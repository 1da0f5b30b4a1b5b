"""C18: connections deliver messages in order, and metrics add up."""

import asyncio
import logging
import socket

from checks.c16 import Transport
from lib import nets, vloop

from runtimepy.metrics.channel import ChannelMetrics
from runtimepy.metrics.connection import ConnectionMetrics
from runtimepy.mixins.environment import ChannelEnvironmentMixin
from runtimepy.net.connection import Connection, EchoConnection
from runtimepy.net.tcp.connection import EchoTcpConnection, TcpConnection
from runtimepy.net.tcp.protocol import QueueProtocol
from runtimepy.net.udp.connection import EchoUdpConnection, UdpConnection
from runtimepy.net.udp.queue import QueueUdpConnection
from runtimepy.net.websocket import WebsocketConnection

PROPERTY = "C18"
RULE = (
    "random send histories (text, binary, empty, large, bursts and pauses) "
    "in both directions over TCP, UDP, WebSocket and queue-based connections "
    "with slow and failing handlers and early closes; handler calls and both "
    "ends' counters are compared with what was sent; non-trivial = distinct "
    "(messages, ending) histories"
)
REQUIRED = {"tcp_sends": 2000, "tcp_bytes": 100000, "tcp_early_close": 40,
            "tcp_both_ways": 100, "tcp_queued_at_close": 15,
            "ws_messages": 1000, "ws_text": 300, "ws_binary": 300,
            "ws_peer_close": 20, "udp_datagrams": 1000, "udp_senders": 100,
            "udp_queue": 100, "udp_reply": 200, "udp_failed": 3,
            "queued_messages": 1000, "queued_text": 300, "metrics": 1500,
            "metric_rates": 200, "metric_polls": 200, "metric_resets": 100,
            "metric_channels": 500, "echo": 300, "multibyte": 100}
LOG = logging.getLogger("verif.c18")
LOG.propagate = False

RECORD = []


def counters(case, conn, want, signature):
    """Compare a connection's counters (and their channels)."""

    metrics = conn.metrics
    got = {
        "tx": (metrics.tx.messages.value, metrics.tx.bytes.value),
        "rx": (metrics.rx.messages.value, metrics.rx.bytes.value),
    }
    for key in want:
        case.equal(got[key], want[key], signature,
                   f"{type(conn).__name__} {key} (messages, bytes)")
    for key in ("tx", "rx"):
        case.event("metric_channels")
        case.equal(
            (
                conn.env.value(f"metrics.{key}.messages"),
                conn.env.value(f"metrics.{key}.bytes"),
            ),
            got[key],
            "metric-channels",
            "the metric channels equal the metrics",
        )


class Recorder:
    """Records what a handler is given."""

    delays = ()
    fail_at = None

    def note(self, item):
        if not hasattr(self, "seen"):
            self.seen = []
        self.seen.append(item)

    async def work(self):
        if self.delays:
            delay = self.delays[len(self.seen) % len(self.delays)]
            if delay is not None:
                await asyncio.sleep(delay)


def data_of(rng, case, limit=4000):
    """A random text or binary message."""

    if rng.random() < 0.4:
        text = nets.text(rng)
        if len(text.encode()) != len(text):
            case.event("multibyte")
        return text
    kind = rng.randrange(4)
    raw = rng.randbytes(rng.choice([0, 1, 2, 100, rng.randrange(limit)]))
    if rng.random() < 0.03:
        raw = rng.randbytes(200000)
    if kind == 0:
        return bytearray(raw)
    if kind == 1:
        return memoryview(raw)
    return raw


def raw_of(item):
    return item.encode() if isinstance(item, str) else bytes(item)


def transmit(conn, item):
    if isinstance(item, str):
        conn.send_text(item)
    else:
        conn.send_binary(item)


async def pace(rng):
    """Perhaps let other things happen."""
    kind = rng.randrange(6)
    if kind == 0:
        await asyncio.sleep(0)
    elif kind == 1:
        await asyncio.sleep(rng.choice([0.0, 0.001, 0.05]))


def tcp_case(case):
    """Data sent over TCP arrives completely, in order."""

    rng = case.rng
    both = rng.random() < 0.6
    early = not both and rng.random() < 0.6
    echo = both and rng.random() < 0.2

    class Conn(Recorder, TcpConnection):
        async def process_text(self, data):
            raise AssertionError("TCP data isn't text")

        async def process_binary(self, data):
            self.note(bytes(data))
            await self.work()
            return True

    async def body():
        pair_kwargs = {"peer": EchoTcpConnection} if echo else {}
        async with Conn.create_pair(**pair_kwargs) as (server, client):
            ends = [server, client]
            for conn in ends:
                conn.seen = []
                conn.delays = rng.choice(
                    [(), (0.0,), (None, 0.01), (0.001, 0.2, None)]
                )
            stop = asyncio.Event()
            tasks = [
                asyncio.create_task(x.process(stop_sig=stop)) for x in ends
            ]
            if rng.random() < 0.7:
                for conn in ends:
                    await conn.initialized.wait()

            sent = {server: [], client: []}
            writers = ends if both and not echo else [
                client if echo else rng.choice(ends)
            ]
            if both:
                case.event("tcp_both_ways")

            async def writer(conn):
                for _ in range(rng.randrange(1, 25)):
                    item = data_of(rng, case)
                    sent[conn].append(raw_of(item))
                    transmit(conn, item)
                    case.event("tcp_sends")
                    case.event("tcp_bytes", len(sent[conn][-1]))
                    await pace(rng)

            await asyncio.gather(*(writer(x) for x in writers))
            case.distinct((both, early, echo,
                           tuple(len(x) for c in writers for x in sent[c])))

            def other(conn):
                return server if conn is client else client

            if early:
                case.event("tcp_early_close")
                source = writers[0]
                how = rng.choice(["disable", "close", "shutdown"])
                if how == "disable":
                    source.disable("test")
                elif how == "close":
                    await source.close()
                else:
                    source._transport.write_eof()
                if not other(source).seen:
                    case.event("tcp_queued_at_close")
                await asyncio.wait_for(tasks[ends.index(other(source))], 50)
                case.expect(other(source).disabled, "tcp-end",
                            "the connection ends when its peer closes it")
            else:
                def done():
                    if echo:
                        return sum(map(len, client.seen)) == sum(
                            map(len, sent[client])
                        )
                    return all(
                        sum(map(len, other(x).seen)) == sum(
                            map(len, sent[x])
                        )
                        for x in writers
                    )

                await nets.settle(done)

            await asyncio.sleep(0.3)
            stop.set()
            await asyncio.wait_for(asyncio.gather(*tasks), 50)

            if echo:
                case.event("echo", len(sent[client]))
                data = b"".join(sent[client])
                case.expect(b"".join(client.seen) == data, "tcp-data",
                            "everything is echoed")
                counters(case, client, {
                    "tx": (len(sent[client]), len(data)),
                    "rx": (len(client.seen), len(data))}, "tcp-metrics")
                case.equal(
                    (server.metrics.rx.bytes.value,
                     server.metrics.tx.bytes.value),
                    (len(data), len(data)), "tcp-metrics", "echo server")
                case.equal(server.metrics.rx.messages.value,
                           server.metrics.tx.messages.value,
                           "tcp-metrics", "echo server messages")
                return
            for conn in ends:
                peer = other(conn)
                data = b"".join(sent[peer])
                got = b"".join(conn.seen)
                case.expect(
                    got == data, "tcp-data",
                    f"received {len(got)} bytes, sent {len(data)} "
                    f"(early={early}, both={both})",
                )
                counters(case, conn, {
                    "tx": (len(sent[conn]), sum(map(len, sent[conn]))),
                    "rx": (len(conn.seen), len(data))}, "tcp-metrics")

    vloop.run(body(), grace=0.0005)


def ws_case(case):
    """WebSocket messages arrive exactly once, in order."""

    rng = case.rng

    class Conn(Recorder, WebsocketConnection):
        async def process_text(self, data):
            case.expect(isinstance(data, str), "ws-kind", "text is text")
            self.note(data)
            await self.work()
            return True

        async def process_binary(self, data):
            case.expect(isinstance(data, bytes), "ws-kind", "binary is bytes")
            self.note(data)
            await self.work()
            return True

    async def body():
        async with Conn.create_pair() as ends:
            for conn in ends:
                conn.seen = []
                conn.delays = rng.choice([(), (0.0,), (None, 0.01)])
            stop = asyncio.Event()
            sent = {x: [] for x in ends}

            async def writer(conn):
                for _ in range(rng.randrange(0, 20)):
                    item = data_of(rng, case)
                    case.event("ws_messages")
                    if isinstance(item, str):
                        case.event("ws_text")
                        sent[conn].append(item)
                    else:
                        case.event("ws_binary")
                        sent[conn].append(bytes(item))
                    transmit(conn, item)
                    await pace(rng)

            tasks = []
            early = rng.random() < 0.3
            if early:
                # Messages may be enqueued before processing starts.
                await asyncio.gather(*(writer(x) for x in ends))
            for conn in ends:
                tasks.append(asyncio.create_task(conn.process(stop_sig=stop)))
            await asyncio.gather(*(writer(x) for x in ends))
            case.distinct(tuple(
                (type(y), len(y)) for x in ends for y in sent[x]))

            peer = {ends[0]: ends[1], ends[1]: ends[0]}

            def flushed():
                return all(
                    x.metrics.tx.messages.value >= len(sent[x]) for x in ends
                )

            def done():
                return all(
                    len(x.seen) >= len(sent[peer[x]]) for x in ends
                )

            if rng.random() < 0.3:
                # One end closes once its messages were handed over; the
                # other one must have everything that was sent to it.
                case.event("ws_peer_close")
                await nets.settle(flushed)
                end = rng.choice(ends)
                await nets.settle(
                    lambda: len(end.seen) >= len(sent[peer[end]])
                )
                end.disable("test")
                await asyncio.wait_for(asyncio.gather(*tasks), 50)
            else:
                await nets.settle(done)
                await asyncio.sleep(0.2)
                stop.set()
                await asyncio.wait_for(asyncio.gather(*tasks), 50)

            for conn in ends:
                out = sent[conn]
                got = peer[conn].seen
                for kind in (str, bytes):
                    case.equal(
                        [x for x in got if isinstance(x, kind)],
                        [x for x in out if isinstance(x, kind)],
                        "ws-data",
                        f"{kind.__name__} messages",
                    )
                size = sum(len(raw_of(x)) for x in out)
                counters(case, conn, {"tx": (len(out), size)}, "ws-metrics")
                counters(case, peer[conn], {"rx": (len(out), size)},
                         "ws-metrics")

    vloop.run(body(), grace=0.0005)


def queued_case(case):
    """Connections that use transmit queues."""

    rng = case.rng

    class Pipe(Recorder, Connection):
        """A connection made of two queues."""

        def __init__(self, inbox, outbox):
            self.inbox = inbox
            self.outbox = outbox
            self.seen = []
            self.closed = 0
            super().__init__(LOG)

        async def _await_message(self):
            return await self.inbox.get()

        async def _send_text_message(self, data):
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice([0, 0.01]))
            self.outbox.put_nowait(data)

        async def _send_binay_message(self, data):
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice([0, 0.01]))
            self.outbox.put_nowait(data)

        async def process_text(self, data):
            self.note(data)
            await self.work()
            return True

        async def process_binary(self, data):
            self.note(data)
            await self.work()
            return True

        async def close(self):
            self.closed += 1

    class Echo(Pipe, EchoConnection):
        async def process_text(self, data):
            return await EchoConnection.process_text(self, data)

        async def process_binary(self, data):
            return await EchoConnection.process_binary(self, data)

    async def body():
        there, back = asyncio.Queue(), asyncio.Queue()
        echo = rng.random() < 0.5
        first = Pipe(back, there)
        second = (Echo if echo else Pipe)(there, back)
        for conn in (first, second):
            conn.delays = rng.choice([(), (0.0,), (None, 0.01)])
        stop = asyncio.Event()
        sent = []
        tasks = []

        def start():
            for conn in (first, second):
                tasks.append(asyncio.create_task(conn.process(stop_sig=stop)))

        late = rng.random() < 0.3
        if not late:
            start()
        for _ in range(rng.randrange(1, 40)):
            item = data_of(rng, case, limit=50)
            sent.append(item)
            transmit(first, item)
            case.event("queued_messages")
            if isinstance(item, str):
                case.event("queued_text")
            await pace(rng)
        if late:
            start()
        case.distinct((echo, late, tuple((type(x), len(x)) for x in sent)))
        await asyncio.sleep(30)
        stop.set()
        await asyncio.wait_for(asyncio.gather(*tasks), 10)
        got = first.seen if echo else second.seen
        if echo:
            case.event("echo", len(got))
        for text in (True, False):
            case.equal(
                [x for x in got if isinstance(x, str) == text],
                [x for x in sent if isinstance(x, str) == text],
                "queued-data",
                "text" if text else "binary",
            )
        case.equal((first.closed, second.closed), (1, 1), "queued-close",
                   "closed once")

    vloop.run(body(), grace=0)


def udp_case(case):
    """Datagrams are processed once with the sender's address."""

    rng = case.rng

    class Conn(Recorder, UdpConnection):
        reply = False

        async def process_datagram(self, data, addr):
            self.note((bytes(data), addr))
            case.equal(self.latest_rx_address, addr, "udp-latest",
                       "latest address")
            if self.fail_at is not None and len(self.seen) >= self.fail_at:
                case.event("udp_failed")
                if rng.random() < 0.5:
                    return False
                raise ValueError("planned")
            if self.reply:
                self.sendto(b"re:" + bytes(data), addr=addr)
            await self.work()
            return True

    async def pair():
        first, second = await Conn.create_pair()
        stop = asyncio.Event()
        tasks = []
        sent = {first: [], second: []}
        for conn in sent:
            conn.seen = []
            conn.delays = rng.choice([(), (0.0,), (None, 0.01)])
            tasks.append(asyncio.create_task(conn.process(stop_sig=stop)))
        peer = {first: second, second: first}
        for _ in range(rng.randrange(1, 30)):
            conn = rng.choice([first, second])
            item = data_of(rng, case, limit=1400)
            if not item or len(item) > 2000:
                item = b"x"
            if rng.random() < 0.3 and not isinstance(item, str):
                conn.sendto(item)
            else:
                transmit(conn, item)
            sent[conn].append(raw_of(item))
            case.event("udp_datagrams")
            await pace(rng)
            # Loopback sockets have limited buffers.
            await nets.settle(lambda: all(
                len(peer[x].seen) >= len(sent[x]) - 5 for x in sent))
        await nets.settle(lambda: all(
            len(peer[x].seen) >= len(sent[x]) for x in sent))
        await asyncio.sleep(0.2)
        stop.set()
        await asyncio.wait_for(asyncio.gather(*tasks), 20)
        case.distinct(tuple(len(y) for x in sent.values() for y in x))
        for conn, out in sent.items():
            got = peer[conn].seen
            case.equal([x[0] for x in got], out, "udp-data", "datagrams")
            for _, addr in got:
                case.equal(addr, (conn.local_address.name,
                                  conn.local_address.port),
                           "udp-address", "sender address")
            size = sum(map(len, out))
            counters(case, conn, {"tx": (len(out), size)}, "udp-metrics")
            counters(case, peer[conn], {"rx": (len(out), size)},
                     "udp-metrics")

    async def many():
        use_queue = rng.random() < 0.4
        kind = QueueUdpConnection if use_queue else (
            EchoUdpConnection if rng.random() < 0.2 else Conn)
        conn = await kind.create_connection(local_addr=("127.0.0.1", 0))
        seen = conn.seen = []
        if kind is Conn:
            conn.reply = rng.random() < 0.7
            conn.delays = rng.choice([(), (0.0,), (None, 0.01)])
            if rng.random() < 0.35:
                conn.fail_at = rng.randrange(1, 10)
        port = conn.local_address.port
        stop = asyncio.Event()
        task = asyncio.create_task(conn.process(stop_sig=stop))
        socks = []
        sent = {}
        for _ in range(rng.randint(1, 5)):
            sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            sock.setblocking(False)
            sock.bind(("127.0.0.1", 0))
            socks.append(sock)
            sent[sock.getsockname()] = []
            case.event("udp_senders")
        total = 0
        for _ in range(rng.randrange(1, 40)):
            sock = rng.choice(socks)
            item = rng.randbytes(rng.choice([1, 2, 100, 1400]))
            if kind is not Conn and rng.random() < 0.1:
                item = b""
            sock.sendto(item, ("127.0.0.1", port))
            sent[sock.getsockname()].append(item)
            total += 1
            case.event("udp_datagrams")
            await pace(rng)
            rx = conn.metrics.rx.messages
            if kind is not Conn or conn.fail_at is None:
                await nets.settle(lambda: rx.value >= total - 5)
            else:
                await asyncio.sleep(0)
        if kind is Conn and conn.fail_at is not None:
            await asyncio.sleep(1.0)
        else:
            await nets.settle(lambda: rx.value >= total)
            await asyncio.sleep(0.2)

        got = {x: [] for x in sent}
        if use_queue:
            while not conn.datagrams.empty():
                data, addr = conn.datagrams.get_nowait()
                got[addr].append(data)
                case.event("udp_queue")
        elif kind is Conn:
            for data, addr in seen:
                case.expect(addr in got, "udp-address", f"unknown {addr}")
                got[addr].append(data)
        replies = 0
        reply_bytes = 0
        for sock in socks:
            out = sent[sock.getsockname()]
            if kind is Conn and not conn.reply:
                continue
            if use_queue:
                continue
            back = []
            try:
                while True:
                    back.append(sock.recv(65536))
            except BlockingIOError:
                pass
            replies += len(back)
            reply_bytes += sum(map(len, back))
            if kind is EchoUdpConnection:
                case.event("echo", len(back))
                # Empty datagrams aren't sent by the event loop.
                case.equal([x for x in back if x], [x for x in out if x],
                           "udp-reply", "echoed to the sender")
            elif conn.fail_at is None:
                case.event("udp_reply", len(back))
                case.equal(back, [b"re:" + x for x in out], "udp-reply",
                           "replies to the sender")
        stop.set()
        await asyncio.wait_for(task, 20)
        for sock in socks:
            sock.close()
        case.distinct(tuple(len(y) for x in sent.values() for y in x))

        failed = kind is Conn and conn.fail_at is not None and (
            total >= conn.fail_at)
        if failed:
            case.equal(len(seen), conn.fail_at, "udp-failed",
                       "nothing is processed after a failure")
            size = sum(len(x[0]) for x in seen)
            counters(case, conn, {"rx": (len(seen), size)}, "udp-metrics")
            return
        size = sum(len(y) for x in sent.values() for y in x)
        counters(case, conn, {"rx": (total, size)}, "udp-metrics")
        if kind is Conn:
            counters(case, conn, {"tx": (replies, reply_bytes)},
                     "udp-metrics")
        if kind is not EchoUdpConnection:
            for addr, out in sent.items():
                case.equal(got[addr], out, "udp-data", f"from {addr}")

    vloop.run(pair() if rng.random() < 0.4 else many(), grace=0.0005)


def memory_case(case):
    """TCP connections on an in-memory transport."""

    rng = case.rng

    class Conn(Recorder, TcpConnection):
        async def process_binary(self, data):
            self.note(bytes(data))
            await self.work()
            return True

    async def body():
        transport = Transport()
        protocol = QueueProtocol()
        protocol.connection_made(transport)
        conn = Conn(transport, protocol)
        conn.seen = []
        conn.delays = rng.choice([(), (0.0,), (None, 0.01), (0.5,)])
        task = asyncio.create_task(conn.process())
        await conn.initialized.wait()
        given = []
        out = []
        for _ in range(rng.randrange(1, 30)):
            if rng.random() < 0.7:
                chunk = rng.randbytes(rng.randint(1, 50))
                given.append(chunk)
                protocol.data_received(chunk)
            else:
                item = data_of(rng, case, limit=30)
                transmit(conn, item)
                out.append(raw_of(item))
            case.event("tcp_sends")
            await pace(rng)
        case.distinct((tuple(map(len, given)), tuple(map(len, out))))
        if len(conn.seen) < len(given):
            case.event("tcp_queued_at_close")
        if conn.delays == () or rng.random() < 0.5:
            protocol.connection_lost(rng.choice([None, OSError("reset")]))
            # Only a message whose handling was interrupted may be lost, it
            # was given to its handler.
        else:
            await asyncio.sleep(60)
            conn.disable("test")
        await asyncio.wait_for(task, 100)
        case.equal(conn.seen, given, "tcp-data", "chunks given to the handler")
        case.expect(bytes(transport.written) == b"".join(out), "tcp-data",
                    "written bytes")
        counters(case, conn, {
            "rx": (len(given), sum(map(len, given))),
            "tx": (len(out), sum(map(len, out)))}, "tcp-metrics")

    vloop.run(body(), grace=0)


def close(one, two, low=1e-4):
    return abs(one - two) <= low * max(1.0, abs(one), abs(two))


def metrics_case(case):
    """Counters and rates add up under any history."""

    rng = case.rng

    class Holder(ChannelEnvironmentMixin):
        pass

    holder = Holder()
    both = ConnectionMetrics()
    name = rng.choice(["metrics", "m"])
    holder.register_connection_metrics(both, namespace=name)
    state = {"tx": [0, 0], "rx": [0, 0]}
    now = rng.randrange(1, 10**15)
    ops = []

    def check():
        for key, (count, size) in state.items():
            one = getattr(both, key)
            case.equal(
                (one.messages.value, one.bytes.value), (count, size),
                "metric-counters", f"{key} after {ops}")
            prefix = f"{name}.{key}."
            case.event("metric_channels")
            for chan, prim in (
                ("messages", one.messages), ("bytes", one.bytes),
                ("kbps", one.kbps), ("messages_rate", one.message_rate),
            ):
                case.equal(holder.env.value(prefix + chan), prim.value,
                           "metric-channels", prefix + chan)

    for _ in range(rng.randrange(1, 25)):
        op = rng.choice(["inc", "inc", "inc", "poll", "reset", "update"])
        key = rng.choice(["tx", "rx"])
        one = getattr(both, key)
        now += rng.choice([0, 1, 10**6, 10**9])
        when = rng.choice([None, now])
        ops.append((op, key))
        case.event("metrics")
        if op == "inc":
            size = rng.choice([0, 1, 1500, 2**20])
            one.increment(size, time_ns=when)
            state[key][0] += 1
            state[key][1] += size
        elif op == "poll":
            rng.choice([both, one]).poll(time_ns=when)
        elif op == "reset":
            case.event("metric_resets")
            if rng.random() < 0.5:
                both.reset()
                state = {"tx": [0, 0], "rx": [0, 0]}
                for item in (both.tx, both.rx):
                    case.equal((item.kbps.value, item.message_rate.value),
                               (0.0, 0.0), "metric-reset", "rates")
            else:
                one.reset()
                state[key] = [0, 0]
                case.equal((one.kbps.value, one.message_rate.value),
                           (0.0, 0.0), "metric-reset", "rates")
        else:
            other = ConnectionMetrics()
            counts = {}
            for direction in ("tx", "rx"):
                item = getattr(other, direction)
                for _ in range(rng.randrange(3)):
                    item.increment(rng.randrange(100))
                counts[direction] = [item.messages.value, item.bytes.value]
            both.update(other)
            state = counts
            for direction in ("tx", "rx"):
                case.equal(
                    (getattr(both, direction).kbps.value,
                     getattr(both, direction).message_rate.value),
                    (getattr(other, direction).kbps.value,
                     getattr(other, direction).message_rate.value),
                    "metric-update", "rates")
            # Afterwards they're independent.
            other.tx.increment(5)
        check()
    case.distinct(tuple(ops))

    # Rates: constant traffic.
    chan = ChannelMetrics()
    if rng.random() < 0.3:
        chan.increment(999, time_ns=7)
        chan.increment(999, time_ns=10**9)
        chan.reset()
    start = rng.randrange(1, 10**15)
    gap = rng.choice([10**5, 10**6, 10**9, 3 * 10**9])
    size = rng.choice([1, 100, 1500, 10**6])
    count = rng.randrange(4, 45)
    for i in range(count):
        chan.increment(size, time_ns=start + gap * i)
    case.event("metric_rates")
    span = gap * (count - 1) / 1e9

    def rates(total, span, label):
        rate = chan.message_rate.value
        case.expect(
            (total - 1.01) / span <= rate <= (total + 1.01) / span,
            "metric-rate",
            f"{label}: {total} messages in {span}s: rate {rate}",
        )
        want = rate * size * 8 / 1000
        case.expect(
            close(chan.kbps.value, want, 1e-3), "metric-kbps",
            f"{label}: {chan.kbps.value} kbps but {rate} messages of {size} "
            "bytes per second",
        )

    rates(count, span, "increment")
    chan.poll(time_ns=start + gap * (count - 1))
    rates(count, span, "poll at the same time")
    case.event("metric_polls")
    idle = gap * rng.randrange(1, 5)
    chan.poll(time_ns=start + gap * (count - 1) + idle)
    if count < 40:
        rates(count, span + idle / 1e9, "poll when idle")
    text = str(chan)
    case.expect(
        f"messages={count}" in text and f"bytes={count * size}" in text,
        "metric-text", text)


KINDS = {
    "tcp": (tcp_case, 200, 6000),
    "ws": (ws_case, 90, 2500),
    "queued": (queued_case, 120, 3000),
    "udp": (udp_case, 120, 3500),
    "memory": (memory_case, 150, 4000),
    "metrics": (metrics_case, 300, 10000),
}
