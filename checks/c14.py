"""C14: length-prefixed messages survive arbitrary fragmentation."""

import asyncio
from io import BytesIO
import json
import logging
import socket

from lib import nets, vloop

from runtimepy.message import MessageProcessor
from runtimepy.net.stream import (
    EchoMessageConnection,
    EchoTcpMessageConnection,
    EchoUdpMessageConnection,
    PrefixedMessageConnection,
    StringMessageConnection,
    TcpPrefixedMessageConnection,
    TcpStringMessageConnection,
    UdpPrefixedMessageConnection,
    UdpStringMessageConnection,
)
from runtimepy.net.stream.json import JsonMessageConnection
from runtimepy.primitives import Uint8, Uint16, Uint32, Uint64
from runtimepy.primitives.byte_order import ByteOrder

PROPERTY = "C14"
RULE = (
    "random message sequences (empty, prefix-like, large, text, JSON) framed "
    "by an independent model, cut at random into pieces and fed to the "
    "processor, to in-memory connections and through loopback sockets; "
    "non-trivial = distinct (messages, cuts) with at least two messages"
)
REQUIRED = {"messages": 10000, "chunks": 20000, "cut_in_prefix": 1000,
            "empty_messages": 1000, "multi_chunks": 1000, "stopped": 100,
            "sent": 1000, "echoed": 200, "json": 300, "tcp_messages": 200,
            "udp_messages": 100}

ORDERS = {
    ByteOrder.NETWORK: "big",
    ByteOrder.BIG_ENDIAN: "big",
    ByteOrder.LITTLE_ENDIAN: "little",
}
LOG = logging.getLogger("verif.c14")


def frame(message, order, width=4):
    return len(message).to_bytes(width, ORDERS[order]) + message


class Ends:
    """Tells which messages are complete after a number of bytes."""

    def __init__(self, messages, width):
        self.bounds = []
        pos = 0
        for item in messages:
            pos += width + len(item)
            self.bounds.append(pos)

    def complete(self, count):
        return sum(1 for x in self.bounds if x <= count)


def observe(case, messages, width, chunks):
    """Count what kind of cuts were made."""

    pos, starts = 0, []
    for item in messages:
        starts.append(pos)
        pos += width + len(item)
        case.event("messages")
        if not item:
            case.event("empty_messages")
    pos = 0
    starts = set(
        y for x in starts for y in range(x + 1, x + width)
    )
    for item in chunks:
        case.event("chunks")
        pos += len(item)
        if pos in starts:
            case.event("cut_in_prefix")
    if len(messages) > 1:
        case.distinct(messages, [len(x) for x in chunks])


def processor(case):
    """The in-process processor, fed pieces and consumed in several ways."""

    rng = case.rng
    order = rng.choice(list(ORDERS))
    kind = rng.choice([Uint32] * 6 + [Uint8, Uint16, Uint64])
    width = {Uint8: 1, Uint16: 2, Uint32: 4, Uint64: 8}[kind]

    cls = MessageProcessor
    if kind is not Uint32:

        class Custom(MessageProcessor):
            message_length_kind = kind

        cls = Custom

    proc = cls(byte_order=order)
    sender = cls(byte_order=order)
    other = cls(byte_order=order)

    messages = []
    with BytesIO() as stream:
        for _ in range(rng.randrange(1, 14)):
            if rng.random() < 0.3:
                item = nets.text(rng)
                if width == 1:
                    item = item[:60]
                sender.encode(stream, item)
                messages.append(item.encode())
            else:
                item = nets.payload(rng, 255 if width == 1 else 3000)
                if width == 1:
                    item = item[:255]
                sender.encode(stream, item)
                messages.append(item)
        data = stream.getvalue()
    case.equal(
        data, b"".join(frame(x, order, width) for x in messages), "encoding"
    )
    case.event("sent", len(messages))

    chunks = nets.segments(rng, data)
    if rng.random() < 0.3:
        chunks = chunks[: rng.randrange(len(chunks) + 1)]
    observe(case, messages, width, chunks)
    case.sample(
        f"{order.name} width={width} sizes={[len(x) for x in messages]} "
        f"pieces={[len(x) for x in chunks][:20]}"
    )
    ends = Ends(messages, width)

    got = []
    seen = 0
    for chunk in chunks:
        seen += len(chunk)
        ready = ends.complete(seen)
        if ready - len(got) > 1:
            case.event("multi_chunks")
        if rng.random() < 0.1:
            list(other.process(b""))
        how = rng.randrange(6)
        if how == 0 and ready > len(got):
            # Stop consuming early: nothing may be lost by that.
            want = rng.randrange(1, ready - len(got) + 1)
            limit = len(got) + want
            try:
                for message in proc.process(chunk):
                    got.append(message)
                    if len(got) == limit:
                        case.event("stopped")
                        if rng.random() < 0.5:
                            break
                        raise KeyError("consumer")
            except KeyError:
                pass
            case.equal(got, messages[:limit], "early-stop")
            got.extend(proc.process(b""))
        else:
            got.extend(proc.process(chunk))
        case.equal(len(got), ready, "count", f"after {seen} bytes")
        case.equal(got, messages[:ready], "content", f"after {seen} bytes")


def json_processor(case):
    """JSON messages through the processor."""

    rng = case.rng
    order = rng.choice(list(ORDERS))
    proc = MessageProcessor(byte_order=order)
    items = [nets.json_dict(rng) for _ in range(rng.randrange(1, 8))]
    with BytesIO() as stream:
        for item in items:
            proc.encode_json(stream, item)
        data = stream.getvalue()
    case.event("json", len(items))
    got = []
    for chunk in nets.segments(rng, data):
        got.extend(proc.messages(chunk))
    case.equal(got, items, "json")
    case.distinct(data)

    # Any equivalent encoding is understood.
    raw = [json.dumps(x, ensure_ascii=False).encode() for x in items]
    data = b"".join(frame(x, order) for x in raw)
    got = []
    for chunk in nets.segments(rng, data):
        got.extend(proc.messages(chunk))
    case.equal(got, items, "json-foreign")


class Recorder(PrefixedMessageConnection):
    """An in-memory connection."""

    def init(self):
        super().init()
        self.sent = b""
        self.got = []
        self.results = []
        self.pause = lambda: 0

    def send_binary(self, data):
        self.sent += bytes(data)

    async def process_single(self, stream, addr=None):
        data = stream.read()
        for _ in range(self.pause()):
            await asyncio.sleep(0)
        self.got.append((data, addr))
        result = self.results.pop(0) if self.results else True
        if isinstance(result, Exception):
            raise result
        return result


class StringRecorder(StringMessageConnection):
    """An in-memory text connection."""

    def init(self):
        super().init()
        self.sent = b""
        self.got = []

    def send_binary(self, data):
        self.sent += bytes(data)

    async def process_message(self, data, addr=None):
        self.got.append((data, addr))
        return True


class Echo(EchoMessageConnection):
    """An in-memory echo connection."""

    def init(self):
        super().init()
        self.sent = b""

    def send_binary(self, data):
        self.sent += bytes(data)


class JsonRecorder(JsonMessageConnection):
    """An in-memory JSON connection."""

    def init(self):
        self.got = []
        self.sent = b""
        super().init()

    def send_binary(self, data):
        self.sent += bytes(data)

    async def process_json(self, data, addr=None):
        self.got.append(data)
        return True


def connection(case):
    """Connections fed directly."""

    rng = case.rng
    order = rng.choice(list(ORDERS))
    addr = rng.choice([None, ("127.0.0.1", 9)])

    async def main():
        base = rng.choice([Recorder, StringRecorder, Echo, JsonRecorder])
        name = base.__name__

        class Conn(base):
            byte_order = order

        conn = Conn(LOG)
        messages = []
        for _ in range(rng.randrange(1, 12)):
            if base is StringRecorder:
                messages.append(nets.text(rng).encode())
            elif base is JsonRecorder:
                if rng.random() < 0.2:
                    messages.append(
                        rng.choice([b"", b"{", b"[1]", b"3", b"{}", b"nul"])
                    )
                else:
                    messages.append(json.dumps(nets.json_dict(rng)).encode())
            else:
                messages.append(nets.payload(rng))
        data = b"".join(frame(x, order) for x in messages)
        chunks = nets.segments(rng, data)
        observe(case, messages, 4, chunks)
        ends = Ends(messages, 4)
        case.sample(
            f"{name} {order.name} sizes={[len(x) for x in messages]} "
            f"pieces={[len(x) for x in chunks][:20]}"
        )

        results = []
        if base is Recorder:
            conn.pause = lambda: rng.choice([0, 0, 1, 3])
            results = [
                rng.choice([True] * 7 + [False, KeyError("handler")])
                for _ in messages
            ]
            conn.results = list(results)

        seen = 0
        for chunk in chunks:
            seen += len(chunk)
            before = len(conn.got) if base is not Echo else 0
            ready = ends.complete(seen)
            while True:
                try:
                    result = await conn.process_binary(chunk, addr=addr)
                    raised = False
                except KeyError:
                    raised = True
                chunk = b""
                if base is Recorder:
                    after = len(conn.got)
                    part = results[before:after]
                    errors = [x for x in part if isinstance(x, Exception)]
                    case.equal(raised, bool(errors), "handler-error")
                    if raised:
                        case.event("stopped")
                        case.expect(part[-1] is errors[0], "ran-on")
                        before = after
                        continue
                    case.equal(bool(result), all(part), "result")
                else:
                    case.expect(result, "result", name)
                break

            if base is Recorder:
                case.equal(
                    conn.got, [(x, addr) for x in messages[:ready]], "content"
                )
            elif base is StringRecorder:
                case.equal(
                    conn.got,
                    [(x.decode(), addr) for x in messages[:ready]],
                    "text",
                )
            elif base is Echo:
                case.equal(
                    conn.sent,
                    b"".join(frame(x, order) for x in messages[:ready]),
                    "echo",
                )
            else:
                want = []
                for item in messages[:ready]:
                    try:
                        item = json.loads(item)
                    except ValueError:
                        continue
                    if item and isinstance(item, dict):
                        want.append(item)
                case.equal(conn.got, want, "json")
        if base is JsonRecorder:
            case.event("json", len(conn.got))

        # The sending direction.
        conn.sent = b""
        want = b""
        for _ in range(rng.randrange(6)):
            case.event("sent")
            if base is JsonRecorder:
                item = nets.json_dict(rng)
                conn.send_json(dict(item))
                got = conn.sent[len(want) :]
                case.equal(
                    int.from_bytes(got[:4], ORDERS[order]),
                    len(got) - 4,
                    "json-prefix",
                )
                sent = json.loads(got[4:])
                sent.pop("__log_messages__", None)
                case.equal(sent, item, "json-sent")
                want = conn.sent
            elif rng.random() < 0.5:
                item = nets.text(rng)
                conn.send_message_str(item)
                want += frame(item.encode(), order)
            else:
                item = nets.payload(rng)
                kind = rng.choice([bytes, bytearray, memoryview])
                conn.send_message(kind(item))
                want += frame(item, order)
        case.equal(conn.sent, want, "sent")
        conn.disable("done")

    vloop.run(main())


def tcp(case):
    """Real sockets, with a raw peer that writes the pieces."""

    rng = case.rng

    async def main():
        which = rng.choice(["prefixed", "string", "echo"])
        got = []
        base = {
            "prefixed": TcpPrefixedMessageConnection,
            "string": TcpStringMessageConnection,
            "echo": EchoTcpMessageConnection,
        }[which]

        class Conn(base):
            byte_order = rng.choice(list(ORDERS))

            async def process_single(self, stream, addr=None):
                if which == "prefixed":
                    data = stream.read()
                    for _ in range(rng.choice([0, 0, 2])):
                        await asyncio.sleep(0)
                    got.append(data)
                    return True
                return await super().process_single(stream, addr=addr)

            if which == "string":

                async def process_message(self, data, addr=None):
                    got.append(data.encode())
                    return True

        order = Conn.byte_order
        conns = []
        async with Conn.serve(conns.append, host="127.0.0.1", port=0) as srv:
            loop = asyncio.get_running_loop()
            sock = await nets.raw_client(srv.sockets[0].getsockname()[1])
            try:
                case.expect(
                    await nets.settle(lambda: conns), "accepted", which
                )
                conn = conns[0]
                task = asyncio.create_task(conn.process())
                messages = [
                    (
                        nets.text(rng).encode()
                        if which == "string"
                        else nets.payload(
                            rng, rng.choice([200, 3000, 200000])
                        )
                    )
                    for _ in range(rng.randrange(1, 10))
                ]
                data = b"".join(frame(x, order) for x in messages)
                chunks = nets.segments(
                    rng, data, rng.choice(["mixed", "large", "one", "halves"])
                )
                if len(chunks) > 400:
                    chunks = [data]
                observe(case, messages, 4, chunks)
                case.event("tcp_messages", len(messages))
                case.sample(f"{which} {[len(x) for x in messages]}")
                back = b""
                reader = None
                if which == "echo":

                    async def read():
                        nonlocal back
                        while len(back) < len(data):
                            part = await loop.sock_recv(sock, 65536)
                            if not part:
                                break
                            back += part

                    reader = asyncio.create_task(read())
                for chunk in chunks:
                    await loop.sock_sendall(sock, chunk)
                    if rng.random() < 0.5:
                        await asyncio.sleep(rng.choice([0, 0.001]))
                if reader is not None:
                    await asyncio.wait_for(reader, 30)
                    case.equal(back, data, "tcp-echo")
                    case.event("echoed", len(messages))
                else:
                    await nets.settle(lambda: len(got) >= len(messages))
                    case.equal(got, messages, "tcp-content")
                    # The other direction.
                    want = b""
                    for _ in range(3):
                        item = nets.text(rng)
                        conn.send_message_str(item)
                        want += frame(item.encode(), order)
                    back = b""
                    while len(back) < len(want):
                        part = await asyncio.wait_for(
                            loop.sock_recv(sock, 65536), 30
                        )
                        case.expect(part, "tcp-closed")
                        back += part
                    case.equal(back, want, "tcp-sent")
                    case.event("sent", 3)
                conn.disable("done")
                await task
            finally:
                sock.close()

    vloop.run(main())


def udp(case):
    """Datagram connections carry the same framing."""

    rng = case.rng

    async def main():
        got = []

        class Prefixed(UdpPrefixedMessageConnection):
            async def process_single(self, stream, addr=None):
                got.append(stream.read())
                return True

        class String(UdpStringMessageConnection):
            async def process_message(self, data, addr=None):
                got.append(data.encode())
                return True

        which = rng.choice([Prefixed, String])
        left, right = await which.create_pair()
        echo = await EchoUdpMessageConnection.create_connection(
            local_addr=("127.0.0.1", 0), connect=False
        )
        sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        sock.setblocking(False)
        sock.bind(("127.0.0.1", 0))
        loop = asyncio.get_running_loop()
        tasks = [
            asyncio.create_task(x.process()) for x in (left, right, echo)
        ]
        messages = []
        for _ in range(rng.randrange(1, 8)):
            if which is String:
                item = nets.text(rng).encode()
            else:
                item = nets.payload(rng, 3000)
            messages.append(item)
            rng.choice([left, right]).send_message(item)
            if rng.random() < 0.5:
                await asyncio.sleep(0)
            await nets.settle(lambda: len(got) >= len(messages))

            part = frame(item, ByteOrder.NETWORK)
            sock.sendto(part, ("127.0.0.1", echo.local_address.port))
            back = await asyncio.wait_for(loop.sock_recv(sock, 65536), 30)
            case.equal(back, part, "udp-echo")
            case.event("echoed")
        case.event("udp_messages", len(messages))
        case.equal(got, messages, "udp-content")
        case.distinct(which.__name__, messages)
        sock.close()
        for conn in (left, right, echo):
            conn.disable("done")
        await asyncio.gather(*tasks)

    vloop.run(main())


KINDS = {
    "processor": (processor, 3000, 40000),
    "json": (json_processor, 400, 5000),
    "connection": (connection, 800, 8000),
    "tcp": (tcp, 160, 1500),
    "udp": (udp, 80, 600),
}
