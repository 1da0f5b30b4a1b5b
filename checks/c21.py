"""C21: file transfers deliver the exact file or report failure."""

import asyncio
import logging
from pathlib import Path

from lib import vloop

from runtimepy.net import normalize_host
from runtimepy.net.udp.protocol import UdpQueueProtocol
from runtimepy.net.udp.tftp import TftpConnection, tftp_read, tftp_write

PROPERTY = "C21"
RULE = (
    "TFTP clients and servers on an in-memory datagram network (logical "
    "time) with seeded loss, duplication, delay and re-ordering per "
    "transfer, raw RFC 1350 peers, hostile requests and concurrent "
    "transfers; destination bytes, results, durations and every datagram "
    "are judged; non-trivial = distinct transfer traces"
)
REQUIRED = {"transfers": 1000, "reads": 500, "writes": 500, "succeeded": 800,
            "failed": 60, "dropped": 1000, "duplicated": 500, "delayed": 500,
            "must_succeed": 600, "empty_files": 50, "aligned_files": 100,
            "raw_reads": 60, "raw_writes": 60, "raw_servers": 60, "verified": 10,
            "stopped_midway": 30, "bad_requests": 200, "escapes": 60,
            "malformed": 250, "concurrent": 250, "sockets": 20,
            "kept_files": 20, "recovered": 100, "retransmissions": 100,
            "error_replies": 200}
ASSUMPTIONS = [
    "packets of one transfer don't arrive during a later transfer between "
    "the same two ports (TFTP can't tell them apart)",
    "files have fewer than 65536 blocks",
]

SIZES = [0, 0, 1, 100, 511, 512, 512, 513, 1023, 1024, 1024, 1025, 1536,
         2048]
RRQ, WRQ, DATA, ACK, ERROR = range(1, 6)


def content(rng):
    """Random file contents."""
    size = rng.choice(SIZES + [rng.randrange(5000)] * 3)
    if rng.random() < 0.2:
        return bytes(size)
    return rng.randbytes(size)


def u16(value):
    return value.to_bytes(2, "big")


class Transport(asyncio.DatagramTransport):
    """An in-memory datagram transport."""

    def __init__(self, net, addr):
        super().__init__()
        self.net = net
        self.addr = addr
        self.closed = False

    def get_extra_info(self, name, default=None):
        return {"sockname": self.addr}.get(name, default)

    def sendto(self, data, addr=None):
        if not self.closed:
            assert addr is not None
            self.net.send(self.addr, (addr[0], addr[1]), bytes(data))

    def is_closing(self):
        return self.closed

    def close(self):
        self.closed = True

    abort = close


class Net:
    """A datagram network with a fault policy."""

    def __init__(self, case):
        self.case = case
        self.nodes = {}
        self.log = []  # (time, source, destination, data)
        self.policy = lambda source, dest, data: [0.0]
        self.conns = []

    def send(self, source, dest, data):
        loop = asyncio.get_running_loop()
        self.log.append((loop.time(), source, dest, data))
        for delay in self.policy(source, dest, data):
            loop.call_later(delay, self.deliver, source, dest, data)

    def deliver(self, source, dest, data):
        node = self.nodes.get(dest)
        if node is not None:
            node(data, source)

    def connection(self, port, root=None, host="127.0.0.1"):
        """Create a connection on this network."""

        addr = (host, port)
        transport = Transport(self, addr)
        protocol = UdpQueueProtocol()
        conn = TftpConnection(transport, protocol)
        conn.logger = logging.getLogger("verif.c21")
        protocol.logger = conn.logger
        if root is not None:
            conn.set_root(root)
        self.nodes[addr] = protocol.datagram_received
        stop = asyncio.Event()
        task = asyncio.ensure_future(conn.process(stop_sig=stop))
        self.conns.append((conn, task))
        return conn

    def raw(self, port, host="127.0.0.1"):
        """Create a raw node."""
        queue = asyncio.Queue()
        self.nodes[(host, port)] = lambda data, src: queue.put_nowait(
            (data, src)
        )
        return Raw(self, (host, port), queue)

    def packets(self, source=None, dest=None, start=0):
        return [
            (when, data)
            for when, src, dst, data in self.log[start:]
            if source in (None, src) and dest in (None, dst)
        ]

    def alive(self, msg=""):
        """Check that no connection ended."""
        for conn, task in self.conns:
            self.case.expect(not task.done(), "connection-ended", msg)

    async def close(self):
        for conn, task in self.conns:
            conn.disable("done")
            task.cancel()
        await asyncio.gather(
            *(x for _, x in self.conns), return_exceptions=True
        )


class Raw:
    """A raw peer."""

    def __init__(self, net, addr, queue):
        self.net = net
        self.addr = addr
        self.queue = queue

    def send(self, dest, data):
        self.net.send(self.addr, dest, data)

    async def get(self, timeout=3.0):
        """Get the next datagram."""
        try:
            return await asyncio.wait_for(self.queue.get(), timeout)
        except asyncio.TimeoutError:
            return None, None

    def drain(self):
        out = []
        while not self.queue.empty():
            out.append(self.queue.get_nowait()[0])
        return out


logging.getLogger("verif.c21").propagate = False
logging.getLogger("verif.c21").addHandler(logging.NullHandler())


def execute(case, body):
    """Run a scenario on a new network."""

    async def main():
        net = Net(case)
        try:
            return await body(net)
        finally:
            await net.close()

    return vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)


def summary(net, start=0):
    """A compact trace of some traffic."""
    return tuple(
        (round(when - net.log[start][0], 2), src[1], dst[1], data[:4].hex(),
         len(data))
        for when, src, dst, data in net.log[start:]
    )


# Policies.


def light(case, rng, drops):
    """A few losses and short delays: transfers must succeed."""

    state = {"drops": drops}

    def policy(*_):
        if state["drops"] and rng.random() < 0.3:
            state["drops"] -= 1
            case.event("dropped")
            return []
        out = [rng.choice([0.0, 0.0, 0.01, 0.03])]
        if rng.random() < 0.1:
            case.event("duplicated")
            out.append(rng.choice([0.0, 0.02, 0.04]))
        if out[0]:
            case.event("delayed")
        return out

    return policy


def heavy(case, rng):
    """Any mixture of faults."""

    loss = rng.choice([0.0, 0.1, 0.3, 0.5, 0.8])
    dup = rng.choice([0.0, 0.2, 0.6])
    delay = rng.choice([0.0, 0.05, 0.3, 1.4])
    dead = rng.choice([None, None, rng.randrange(30)])
    state = {"count": 0}

    def policy(*_):
        state["count"] += 1
        if (dead is not None and state["count"] > dead) or (
            rng.random() < loss
        ):
            case.event("dropped")
            return []
        out = [rng.random() * delay]
        if delay:
            case.event("delayed")
        if rng.random() < dup:
            case.event("duplicated")
            out.append(rng.random() * delay)
        return out

    return policy


def clean(*_):
    """No faults."""
    return [0.0]


async def transfer(case, rng, net, client, server, root, must):
    """Perform and judge one transfer."""

    addr = ("127.0.0.1", server.local_address.port)
    scratch = Path(case.scratch)
    loop = asyncio.get_running_loop()
    start = loop.time()
    name = rng.choice(["a.bin", "b.bin", "sub/c.bin", "sp ace ü.bin", "x"])
    path = root.joinpath(name)
    path.parent.mkdir(parents=True, exist_ok=True)
    data = content(rng)
    old = path.read_bytes() if path.exists() else None
    case.event("transfers")
    if not data:
        case.event("empty_files")
    elif len(data) % 512 == 0:
        case.event("aligned_files")
    kwargs = {"addr": addr}
    if rng.random() < 0.3:
        kwargs["mode"] = rng.choice(["octet", "netascii", "mail"])
    if rng.random() < 0.3:
        kwargs["addr"] = normalize_host(*addr)

    timeout = client.endpoint_timeout.value
    blocks = len(data) // 512 + 1
    bound = (blocks + 1) * timeout + 1.0

    if rng.random() < 0.5:
        case.event("reads")
        dest = scratch.joinpath("local", f"read{rng.randrange(3)}")
        dest.parent.mkdir(exist_ok=True)
        path.write_bytes(data)
        result = await client.request_read(dest, name, **kwargs)
        case.expect(
            path.read_bytes() == data, "read-modified-source", name
        )
        if result:
            case.expect(
                dest.read_bytes() == data, "read-contents",
                f"{name}: {len(data)} bytes expected, got "
                f"{dest.stat().st_size}",
            )
    else:
        case.event("writes")
        verify = rng.random() < 0.5
        source = scratch.joinpath("source")
        source.write_bytes(data)
        if verify:
            bound *= 2
        result = await client.request_write(
            source, name, verify=verify, **kwargs
        )
        case.expect(
            source.read_bytes() == data, "write-modified-source", name
        )
        now = path.read_bytes() if path.exists() else None
        if result:
            # The last block is acknowledged once the server has it.
            if now != data:
                await asyncio.sleep(0.5)
                now = path.read_bytes() if path.exists() else None
            case.expect(
                now == data, "write-contents",
                f"{name}: {len(data)} bytes expected, got "
                f"{'none' if now is None else len(now)}",
            )
        else:
            case.expect(
                now in ((None, b"", data) if old is None else (old, data)),
                "failed-write-destroyed-file",
                f"{name}: had {old and len(old)}, wrote {len(data)}, found "
                f"{now and len(now)} bytes",
            )
            if old:
                case.event("kept_files")

    case.expect(isinstance(result, bool), "result-type", repr(result))
    case.event("succeeded" if result else "failed")
    if must:
        case.event("must_succeed")
        case.expect(
            result, "transfer-failed",
            f"{name}: {len(data)} bytes; traffic {summary(net)[-12:]}",
        )
    took = loop.time() - start
    case.expect(
        took <= bound, "transfer-time", f"{took} > {bound} ({blocks} blocks)"
    )
    net.alive("after transfer")
    return result


def setup(case, net, rng, servers=1, clients=1):
    """Create servers and clients."""

    out = []
    for i in range(servers):
        root = Path(case.scratch, f"root{i}")
        root.mkdir(exist_ok=True)
        out.append((net.connection(6900 + i, root=root), root))
    return out, [net.connection(5000 + i) for i in range(clients)]


def check_blocks(case, net, start):
    """Judge the shape of all transfers' packets."""

    for _, src, dst, data in net.log[start:]:
        case.expect(len(data) >= 4, "packet-length", repr(data))
        code = int.from_bytes(data[:2], "big")
        case.expect(1 <= code <= 5, "packet-opcode", repr(data[:8]))
        if code == DATA:
            case.expect(len(data) <= 516, "packet-block-size", len(data))
        elif code == ACK:
            case.equal(len(data), 4, "packet-ack-size")
        elif code in (RRQ, WRQ):
            case.expect(
                data.endswith(b"\0") and data[2:].count(0) == 2,
                "packet-request", repr(data),
            )


def run_light(case):
    """Few losses: transfers succeed."""

    rng = case.rng

    async def body(net):
        servers, clients = setup(case, net, rng, servers=2)
        for _ in range(rng.randint(2, 4)):
            net.policy = rng.choice(
                [clean, light(case, rng, rng.randint(0, 3))]
            )
            start = len(net.log)
            server, root = rng.choice(servers)
            await transfer(
                case, rng, net, clients[0], server, root, True
            )
            check_blocks(case, net, start)
            case.distinct(summary(net, start))
            net.policy = clean
            await asyncio.sleep(3.0)
        # Everything's quiet once transfers are done.
        count = len(net.log)
        await asyncio.sleep(10.0)
        case.equal(len(net.log), count, "traffic-after-transfers")

    execute(case, body)


def run_back_to_back(case):
    """Consecutive transfers on a perfect network, without pauses."""

    rng = case.rng

    async def body(net):
        servers, clients = setup(case, net, rng)
        server, root = servers[0]
        for _ in range(rng.randint(3, 8)):
            start = len(net.log)
            await transfer(
                case, rng, net, clients[0], server, root, True
            )
            case.distinct(summary(net, start))
            if rng.random() < 0.3:
                await asyncio.sleep(rng.random())
        check_blocks(case, net, 0)

    execute(case, body)


def run_heavy(case):
    """Any faults: success means that the file is exact."""

    rng = case.rng

    async def body(net):
        servers, clients = setup(case, net, rng)
        server, root = servers[0]
        if rng.random() < 0.3:
            for conn in (server, clients[0]):
                conn.endpoint_timeout.value = rng.choice([0.5, 1.0, 2.0])
                conn.endpoint_period.value = rng.choice([0.05, 0.1, 0.3])
        for _ in range(rng.randint(2, 4)):
            start = len(net.log)
            net.policy = heavy(case, rng)
            await transfer(
                case, rng, net, clients[0], server, root, False
            )
            case.distinct(summary(net, start))
            net.policy = clean
            await asyncio.sleep(8.0)

        # Transfers work again.
        count = len(net.log)
        await asyncio.sleep(5.0)
        case.equal(len(net.log), count, "traffic-after-transfers")
        case.event("recovered")
        for conn in (server, clients[0]):
            conn.endpoint_timeout.value = 1.0
            conn.endpoint_period.value = 0.2
        await transfer(case, rng, net, clients[0], server, root, True)

    execute(case, body)


def run_concurrent(case):
    """Concurrent transfers don't affect each other."""

    rng = case.rng

    async def body(net):
        servers, clients = setup(
            case, net, rng, servers=rng.randint(1, 4),
            clients=rng.randint(1, 4),
        )
        pairs = [(x, y) for x in servers for y in clients]
        rng.shuffle(pairs)
        count = rng.randint(2, 6)
        if rng.random() < 0.5:
            # Every transfer has its own pair of ports.
            net.policy = light(case, rng, 0)
            count = min(count, len(pairs))
        else:
            pairs = [rng.choice(pairs) for _ in range(count)]
        scratch = Path(case.scratch)

        async def one(number):
            """Run one transfer (of its own files)."""

            await asyncio.sleep(rng.choice([0.0, 0.0, 0.01, 0.1]))
            (server, root), client = pairs[number]
            addr = ("127.0.0.1", server.local_address.port)
            name = f"file{number}.bin"
            data = content(rng)
            local = scratch.joinpath(f"local{number}")
            case.event("transfers")
            case.event("concurrent")
            if rng.random() < 0.5:
                case.event("reads")
                root.joinpath(name).write_bytes(data)
                good = await client.request_read(local, name, addr=addr)
            else:
                case.event("writes")
                local.write_bytes(data)
                good = await client.request_write(
                    local, name, addr=addr, verify=rng.random() < 0.5
                )
            case.event("succeeded" if good else "failed")
            return number, good, data, local, root.joinpath(name)

        results = await asyncio.gather(
            *(one(x) for x in range(count))
        )
        await asyncio.sleep(1.0)
        for number, good, data, local, remote in results:
            if good:
                case.expect(
                    local.read_bytes() == data
                    and remote.read_bytes() == data,
                    "concurrent-contents", f"transfer {number}",
                )
            case.expect(
                good, "concurrent-transfer-failed",
                f"transfer {number} of {len(results)} ({len(data)} bytes)",
            )
        net.alive("concurrent transfers")
        check_blocks(case, net, 0)
        case.distinct(summary(net))

    # Several transfers between two ports wait for each other.
    execute(case, body)


# Raw peers.


def request(code, name, mode="octet"):
    return u16(code) + name.encode() + b"\0" + mode.encode() + b"\0"


def run_raw_client(case):
    """A raw client judges a server's packets."""

    rng = case.rng

    async def body(net):
        servers, _ = setup(case, net, rng, clients=0)
        server, root = servers[0]
        dest = ("127.0.0.1", 6900)
        for number in range(rng.randint(1, 3)):
            peer = net.raw(4000 + number)
            data = content(rng)
            blocks = [data[x : x + 512] for x in range(0, len(data), 512)]
            if not blocks or len(blocks[-1]) == 512:
                blocks.append(b"")
            stop_at = None
            if rng.random() < 0.3:
                stop_at = rng.randrange(len(blocks))
            start = len(net.log)
            path = root.joinpath("file")

            if rng.random() < 0.5:
                case.event("raw_reads")
                path.write_bytes(data)
                peer.send(dest, request(RRQ, "file"))
                if rng.random() < 0.3:
                    peer.send(dest, request(RRQ, "file"))
                for idx, block in enumerate(blocks, 1):
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        got, _ = await peer.get()
                        while got is not None and got[:4] == (
                            u16(DATA) + u16(idx - 1)
                        ):
                            got, _ = await peer.get()
                        case.expect(
                            got == u16(DATA) + u16(idx) + block,
                            "server-data",
                            f"block {idx}: {len(block)} bytes expected, got "
                            f"{got and (got[:4].hex(), len(got) - 4)}",
                        )
                    if stop_at == idx - 1:
                        break
                    peer.send(dest, u16(ACK) + u16(idx))
                    if rng.random() < 0.1:
                        # A late duplicate of an earlier acknowledgement.
                        peer.send(dest, u16(ACK) + u16(rng.randrange(idx)))
                await asyncio.sleep(0.001)
            else:
                case.event("raw_writes")
                old = rng.choice([None, b"", b"old contents" * 100])
                path.unlink(missing_ok=True)
                if old is not None:
                    path.write_bytes(old)
                peer.send(dest, request(WRQ, "file"))
                if rng.random() < 0.3:
                    peer.send(dest, request(WRQ, "file"))
                for idx, block in enumerate([None] + blocks):
                    if idx:
                        peer.send(dest, u16(DATA) + u16(idx) + block)
                        if rng.random() < 0.1:
                            case.event("duplicated")
                            peer.send(dest, u16(DATA) + u16(idx) + block)
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        got, _ = await peer.get()
                        while got is not None and (
                            got[:4] == u16(ACK) + u16(idx - 1 if idx else 0)
                            and idx
                            or got[:2] == u16(ERROR)
                        ):
                            got, _ = await peer.get()
                        case.expect(
                            got == u16(ACK) + u16(idx), "server-ack",
                            f"block {idx} of {len(blocks)}: got {got!r}",
                        )
                    if idx and stop_at == idx - 1:
                        break
                if stop_at is None or stop_at == len(blocks) - 1:
                    await asyncio.sleep(0.5)
                    case.expect(
                        path.read_bytes() == data, "write-contents",
                        f"{len(data)} bytes",
                    )
                else:
                    await asyncio.sleep(4.0)
                    now = path.read_bytes() if path.exists() else None
                    case.expect(
                        now in ((None, b"") if old is None else (old,)),
                        "failed-write-destroyed-file",
                        f"had {old and len(old)}, found {now and len(now)}",
                    )
                    case.event("kept_files")

            if stop_at is not None:
                case.event("stopped_midway")
            # The server stops within its timeout.
            count = len(net.packets(source=dest, start=start))
            if count > len(blocks):
                case.event("retransmissions")
            peer.drain()
            finished = net.log[-1][0]
            await asyncio.sleep(6.0)
            last = net.log[-1][0]
            case.expect(
                last - finished <= 1.3, "server-kept-sending",
                f"{last - finished}",
            )
            net.alive("raw client")
            case.distinct(summary(net, start))

    execute(case, body)


def run_raw_server(case):
    """A raw server (answering from its own or a new port)."""

    rng = case.rng

    async def body(net):
        client = net.connection(5000)
        addr = ("127.0.0.1", 6900)
        listener = net.raw(6900)
        scratch = Path(case.scratch)
        case.event("raw_servers")
        separate = rng.random() < 0.7
        tid = net.raw(40000) if separate else listener
        data = content(rng)
        blocks = [data[x : x + 512] for x in range(0, len(data), 512)]
        if not blocks or len(blocks[-1]) == 512:
            blocks.append(b"")
        name = rng.choice(["file", "some/dir/file.txt", "ü b", "."])
        mode = rng.choice(["octet", "netascii"])
        drops = [rng.choice([0, 0, 0, 1, 2]) for _ in range(len(blocks) + 1)]

        async def skip(peer, count, want):
            """Expect a packet (possibly repeated)."""
            for _ in range(count + 1):
                got, src = await peer.get()
                while got is not None and got in want[1:]:
                    got, src = await peer.get()
                case.expect(
                    got == want[0], "client-packet",
                    f"wanted {want[0][:8].hex()} ({len(want[0])}), got "
                    f"{got and got[:8].hex()} ({got and len(got)})",
                )
                case.equal(src, ("127.0.0.1", 5000), "client-port")
            if count:
                case.event("retransmissions")

        local = scratch.joinpath("local")
        if rng.random() < 0.5:
            task = asyncio.ensure_future(
                client.request_read(local, name, mode=mode, addr=addr)
            )
            want = request(RRQ, name, mode)
            await skip(listener, drops[0], [want])
            prev = want
            for idx, block in enumerate(blocks, 1):
                for _ in range(rng.choice([1, 1, 2])):
                    tid.send(client_addr, u16(DATA) + u16(idx) + block)
                    if rng.random() < 0.1:
                        await asyncio.sleep(0.01)
                ack = u16(ACK) + u16(idx)
                got, src = await tid.get()
                while got is not None and (
                    got == prev or got[:2] == u16(ERROR)
                ):
                    got, src = await tid.get()
                case.expect(
                    got == ack, "client-ack",
                    f"block {idx} of {len(blocks)}: {got!r}",
                )
                for _ in range(drops[idx]):
                    got, src = await tid.get()
                    while got is not None and got[:2] == u16(ERROR):
                        got, src = await tid.get()
                    case.expect(
                        got == ack, "client-ack-repeated",
                        f"block {idx} of {len(blocks)}: {got!r}",
                    )
                prev = ack
            good = await task
            case.expect(good is True, "read-failed", f"{len(blocks)} blocks")
            case.expect(
                local.read_bytes() == data, "read-contents", f"{len(data)}"
            )
        else:
            local.write_bytes(data)
            verify = rng.random() < 0.5
            task = asyncio.ensure_future(
                client.request_write(
                    local, name, mode=mode, addr=addr, verify=verify
                )
            )
            want = request(WRQ, name, mode)
            await skip(listener, drops[0], [want])
            prev = want
            listener.drain()
            for idx, block in enumerate(blocks, 1):
                for _ in range(rng.choice([1, 1, 2])):
                    tid.send(client_addr, u16(ACK) + u16(idx - 1))
                want = u16(DATA) + u16(idx) + block
                await skip(tid, drops[idx], [want, prev])
                prev = want
            tid.send(client_addr, u16(ACK) + u16(len(blocks)))
            same = True
            if verify:
                # The written file is read back.
                case.event("verified")
                want = request(RRQ, name, mode)
                tid.drain()
                got, _ = await listener.get()
                while got is not None and got == prev:
                    got, _ = await listener.get()
                case.equal(got, want, "verify-request")
                same = rng.random() < 0.5
                if not same:
                    size = rng.choice([0, len(blocks[-1]) or 1])
                    blocks[-1] = rng.randbytes(size)
                    same = b"".join(blocks) == data
                for idx, block in enumerate(blocks, 1):
                    tid.send(client_addr, u16(DATA) + u16(idx) + block)
                    ack = u16(ACK) + u16(idx)
                    got, _ = await tid.get()
                    while got is not None and got != ack:
                        got, _ = await tid.get()
                    case.equal(got, ack, "client-ack")
            good = await task
            case.expect(
                good is same, "write-failed" if same else "write-verified",
                f"{len(blocks)} blocks",
            )
        net.alive("raw server")
        await asyncio.sleep(3.0)
        count = len(net.log)
        await asyncio.sleep(5.0)
        case.equal(len(net.log), count, "traffic-after-transfers")
        case.distinct(summary(net))

    client_addr = ("127.0.0.1", 5000)
    execute(case, body)


def run_hostile(case):
    """Requests that can't be serviced and malformed messages."""

    rng = case.rng

    async def body(net):
        base = Path(case.scratch, "x", "y")
        root = base.joinpath("root")
        root.mkdir(parents=True)
        root.joinpath("dir").mkdir()
        root.joinpath("file").write_bytes(b"inside")
        canaries = {
            base.joinpath("canary"): b"canary",
            base.parent.joinpath("canary"): b"other",
            base.joinpath("root2", "canary"): b"sibling",
        }
        for path, data in canaries.items():
            path.parent.mkdir(exist_ok=True)
            path.write_bytes(data)

        def outside():
            """Everything outside of the root."""
            return {
                x: x.read_bytes() if x.is_file() else None
                for x in base.parent.rglob("*")
                if not x.is_relative_to(root)
            }

        before = outside()
        server = net.connection(6900, root=root)
        dest = ("127.0.0.1", 6900)
        peer = net.raw(4000)
        background = []

        # A good transfer is going on meanwhile.
        if rng.random() < 0.5:
            client = net.connection(5000)
            data = content(rng)
            root.joinpath("good").write_bytes(data)
            local = Path(case.scratch, "local.bin")

            async def good():
                """Read a file."""
                case.event("transfers")
                case.event("reads")
                case.event("must_succeed")
                result = await client.request_read(local, "good", addr=dest)
                case.expect(
                    result and local.read_bytes() == data,
                    "transfer-disturbed", f"{len(data)} bytes: {result}",
                )
                case.event("succeeded")

            background.append(asyncio.ensure_future(good()))

        escapes = [
            "../canary", "../../canary", "../root2/canary",
            "dir/../../canary", str(base.joinpath("canary")),
            str(base.joinpath("new")), "../new", "../root2/new",
            "./../canary", "dir/../../root2/new", "..", "/",
        ]
        missing = ["nope", "dir/nope", "no/such/dir", "file/below", ""]
        for _ in range(rng.randint(4, 12)):
            kind = rng.randrange(5)
            start = len(net.log)
            if kind == 0:
                case.event("escapes")
                message = request(
                    rng.choice([RRQ, WRQ]), rng.choice(escapes)
                )
            elif kind == 1:
                message = request(RRQ, rng.choice(missing))
            elif kind == 2:
                message = request(
                    rng.choice([RRQ, WRQ]),
                    rng.choice(["dir", ".", "n" * 300, "d/" * 2000]),
                )
            elif kind == 3:
                message = request(
                    WRQ, rng.choice(["no/parent", "file/below", "dir"])
                )
            else:
                message = malformed(rng)
                case.event("malformed")
            peer.send(dest, message)
            if kind != 4:
                case.event("bad_requests")
                got, _ = await peer.get(1.0)
                while got is not None and kind == 4:
                    got, _ = await peer.get(0.1)
                case.expect(
                    got is not None and got[:2] == u16(ERROR)
                    and len(got) >= 5 and got[-1] == 0,
                    "bad-request-reply", f"{message[:60]!r}: {got!r}",
                )
                if kind == 1:
                    case.expect(
                        got[2:4] in (u16(1), u16(2)), "bad-request-code",
                        f"{message[:60]!r}: {got!r}",
                    )
                case.event("error_replies")
            else:
                for _ in range(rng.choice([0, 0, 3])):
                    case.event("malformed")
                    peer.send(dest, malformed(rng))
            await asyncio.sleep(rng.choice([0.0, 0.01, 0.3]))
            await quiet(net, dest, start)
            peer.drain()
            net.alive(f"{message[:80]!r}")
            case.expect(
                outside() == before, "escaped-root", f"{message[:80]!r}"
            )
        for task in background:
            await task
        await asyncio.sleep(8.0)
        case.equal(outside(), before, "escaped-root")
        case.equal(root.joinpath("file").read_bytes(), b"inside",
                   "file-modified")
        peer.drain()

        # Still functional.
        case.event("recovered")
        peer.send(dest, request(RRQ, "file"))
        got, _ = await peer.get()
        case.equal(got, u16(DATA) + u16(1) + b"inside", "still-functional")
        peer.send(dest, u16(ACK) + u16(1))
        case.distinct(summary(net))

    async def quiet(net, dest, start):
        """Wait until any accidental transfer is over."""
        await asyncio.sleep(0.001)
        if any(
            data[:2] in (u16(DATA), u16(ACK))
            for _, data in net.packets(
                source=dest, dest=("127.0.0.1", 4000), start=start
            )
        ):
            await asyncio.sleep(3.0)

    execute(case, body)


def malformed(rng):
    """A message that isn't valid (or isn't expected)."""

    return rng.choice([
        b"", b"\0", rng.randbytes(rng.randrange(8)),
        u16(rng.choice([0, 6, 7, 255, 65535])) + rng.randbytes(4),
        u16(RRQ), u16(WRQ), u16(RRQ) + b"nope", u16(WRQ) + b"no\xff/x\0m\0",
        u16(RRQ) + b"\xff\xfe\0octet\0", u16(DATA), u16(DATA) + b"\0",
        u16(ACK), u16(ACK) + b"\1", u16(DATA) + u16(7) + bytes(600),
        u16(DATA) + u16(1), u16(ACK) + u16(0), u16(ACK) + u16(9),
        u16(ERROR), u16(ERROR) + u16(99) + b"text\0",
        u16(ERROR) + u16(1) + b"\xff\xff\0", u16(ERROR) + u16(0),
        u16(RRQ) + b"a\0b\0octet\0", u16(RRQ) + b"\0\0\0",
        u16(RRQ) + b"nope\0octet\0blksize\0" + b"1024\0",
    ])


def run_errors(case):
    """Clients learn about errors and report failure."""

    rng = case.rng

    async def body(net):
        servers, clients = setup(case, net, rng)
        client = clients[0]
        seen = []
        client.error_handlers.append(lambda *args: seen.append(args))
        local = Path(case.scratch, "local.bin")
        dest = ("127.0.0.1", 6900)
        for _ in range(rng.randint(1, 3)):
            seen.clear()
            case.event("transfers")
            case.event("failed")
            if rng.random() < 0.5:
                case.event("reads")
                local.write_bytes(b"previous")
                result = await client.request_read(
                    local, "missing", addr=dest
                )
                case.expect(
                    local.read_bytes() == b"previous",
                    "failed-read-destroyed-file", "",
                )
                codes = ("FILE_NOT_FOUND",)
            else:
                case.event("writes")
                local.write_bytes(content(rng))
                result = await client.request_write(
                    local, "no/parent", addr=dest,
                    verify=rng.random() < 0.5,
                )
                codes = ("ACCESS_VIOLATION", "FILE_NOT_FOUND")
            case.expect(result is False, "reported-success", "")
            case.expect(seen != [], "error-handlers", "not called")
            case.expect(
                all(x[0].name in codes and x[2] == dest for x in seen),
                "error-handler-arguments", repr(seen),
            )
            case.event("error_replies", len(seen))
            net.alive("errors")
            await asyncio.sleep(3.0)

        # Nobody answers.
        case.event("transfers")
        case.event("failed")
        loop = asyncio.get_running_loop()
        start = loop.time()
        result = await client.request_read(
            local, "x", addr=("127.0.0.1", 1234)
        )
        case.expect(result is False, "reported-success", "no server")
        case.expect(loop.time() - start < 2.0, "transfer-time", "no server")
        case.event("recovered")
        await transfer(
            case, rng, net, client, servers[0][0], servers[0][1], True
        )

    execute(case, body)


def run_sockets(case):
    """The helpers, on real (loopback) sockets."""

    rng = case.rng

    async def main():
        root = Path(case.scratch, "root")
        root.mkdir()
        server = await TftpConnection.create_connection(
            local_addr=("127.0.0.1", 0)
        )
        server.set_root(root)
        task = asyncio.ensure_future(server.process())
        addr = ("127.0.0.1", server.local_address.port)
        try:
            for _ in range(rng.randint(1, 3)):
                case.event("sockets")
                case.event("transfers")
                case.event("must_succeed")
                data = content(rng)
                local = Path(case.scratch, "local.bin")
                remote = root.joinpath("file.bin")
                if rng.random() < 0.5:
                    case.event("reads")
                    remote.write_bytes(data)
                    result = await tftp_read(addr, local, "file.bin")
                else:
                    case.event("writes")
                    local.write_bytes(data)
                    result = await tftp_write(
                        addr, local, "file.bin", verify=rng.random() < 0.5
                    )
                    await asyncio.sleep(0.5)
                case.expect(result is True, "socket-transfer-failed", "")
                case.event("succeeded")
                case.expect(
                    local.read_bytes() == data
                    and remote.read_bytes() == data,
                    "socket-contents", f"{len(data)}",
                )
                case.expect(not task.done(), "connection-ended", "sockets")
                case.distinct((len(data), case.rng.random()))
        finally:
            server.disable("done")
            task.cancel()
            await asyncio.gather(task, return_exceptions=True)

    vloop.run(main(), limit=1e4, real_limit=60.0)


KINDS = {
    "light": (run_light, 170, 6000),
    "back_to_back": (run_back_to_back, 80, 2500),
    "heavy": (run_heavy, 150, 6000),
    "concurrent": (run_concurrent, 130, 4000),
    "raw_client": (run_raw_client, 150, 5000),
    "raw_server": (run_raw_server, 100, 3000),
    "hostile": (run_hostile, 100, 3000),
    "errors": (run_errors, 40, 800),
    "sockets": (run_sockets, 15, 300),
}
