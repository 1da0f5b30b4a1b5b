"""C25: struct telemetry is complete, ordered and fits the datagram."""

import asyncio
from io import BytesIO
import logging
import socket

from lib import prims, vloop
from lib.nets import settle

from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.arbiter.struct import (
    TimestampedStruct,
    UdpStructTransceiver,
)
from runtimepy.net.mtu import UDP_DEFAULT_MTU, UDP_HEADER_SIZE
from runtimepy.net.udp import UdpConnection
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.field import BitField, BitFlag
from runtimepy.primitives.serializable.fixed import FixedChunk
from runtimepy.primitives.serializable.framer import SerializableFramer

PROPERTY = "C25"
RULE = (
    "structs with generated channels, enums, bit fields and byte orders are "
    "sampled, flushed and sent over loopback datagrams under generated "
    "limits while datagrams are dropped, duplicated, re-ordered and mixed "
    "with malformed ones; an independent decoding of every datagram sent "
    "and the receiver's log are compared with what was captured; "
    "non-trivial = distinct layouts and sampling histories"
)
REQUIRED = {"links": 350, "samples": 12000, "datagrams": 3000,
            "full_frames": 1500, "flushed": 900, "decoded": 9000,
            "dropped": 200, "duplicated": 200, "reordered": 200,
            "malformed": 300, "wraps": 60, "fields": 150, "enums": 150,
            "quiet_updates": 500, "framers": 400, "chains": 100,
            "several_senders": 40, "sample_apps": 5, "negotiated": 300,
            "exact_fit": 50, "empty_flush": 150}
LOG = logging.getLogger("verif.c25")
UNSIGNED = ["uint8", "uint16", "uint32", "uint64"]
CHANNELS = list(prims.INTS) + ["float", "double", "bool"]


class Layout:
    """What a struct consists of."""

    def __init__(self, case):
        rng = case.rng
        self.order, self.endian = rng.choice(list(prims.orders().items()))
        self.items = []  # (name, kind, enum items)
        self.fields = []  # (name, index in items, bit index, width)
        used = set()

        def fresh():
            while True:
                name = rng.choice("abcdefgh") + str(rng.randrange(1000))
                if name not in used:
                    used.add(name)
                    return name

        for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 20, 60])):
            kind = rng.choice(CHANNELS)
            enum = None
            if kind == "bool" and rng.random() < 0.3:
                enum = ("bool", {"On": True, "Off": False})
                case.event("enums")
            elif kind in prims.INTS and rng.random() < 0.2:
                low = 0 if kind[0] == "u" else -3
                enum = ("int", {f"v{i}": i for i in range(low, 5)})
                case.event("enums")
            self.items.append((fresh(), kind, enum))
            if kind in UNSIGNED and enum is None and rng.random() < 0.4:
                pos = 0
                bits = prims.SIZES[kind] * 8
                while pos < bits and rng.random() < 0.8:
                    width = rng.choice([1, 1, 2, 3, 4, 8])
                    if pos + width > bits:
                        break
                    case.event("fields")
                    self.fields.append(
                        (fresh(), len(self.items) - 1, pos, width)
                    )
                    pos += width + rng.choice([0, 0, 1, 3])
        self.size = 10 + sum(prims.SIZES[k] for _, k, _ in self.items)
        self.names = ["timestamp", "sequence"] + [x[0] for x in self.items]

    def decode(self, data):
        """Independently decode one element."""
        out = []
        pos = 0
        for kind in ["uint64", "uint16"] + [x[1] for x in self.items]:
            size = prims.SIZES[kind]
            chunk = data[pos:pos + size]
            pos += size
            if kind in prims.INTS:
                out.append(
                    int.from_bytes(
                        chunk, self.endian, signed=kind[0] != "u"
                    )
                )
            elif kind == "bool":
                out.append(chunk != b"\x00")
            else:
                out.append(
                    prims.struct.unpack(
                        ("<" if self.endian == "little" else ">")
                        + prims.FLOATS[kind][1], chunk,
                    )[0]
                )
        return out

    def element(self, rng):
        """Bytes that are an element nobody captured."""
        return rng.randbytes(self.size)


def create(case, layout):
    """Create struct and connection classes."""

    clock = {"now": case.rng.choice([0, 1, 10**18, 2**63])}

    class Generated(TimestampedStruct):
        """A generated struct."""

        byte_order = layout.order

        @staticmethod
        def time_keeper():
            """Get a logical time."""
            return clock["now"]

        def init_env(self):
            super().init_env()
            env = self.env
            for i, (name, kind, enum) in enumerate(layout.items):
                prim = prims.make(kind)
                args = {}
                if enum is not None:
                    args["enum"] = env.enum(f"E{i}", enum[0], dict(enum[1]))
                if kind == "bool":
                    env.bool_channel(name, prim, **args)
                elif kind in prims.INTS:
                    env.int_channel(name, prim, **args)
                else:
                    env.float_channel(name, prim)
                for fname, index, bit, width in layout.fields:
                    if index == i and width == 1:
                        env.add_field(BitFlag(fname, prim, bit))
                    elif index == i:
                        env.add_field(BitField(fname, prim, bit, width))

    class Link(UdpStructTransceiver[Generated]):
        """A link with faults."""

        struct_kind = Generated
        limit = None

        def __init__(self, *args, **kwargs):
            self.sent = []
            self.seen = []  # raw datagrams
            self.log = []
            self.fault = None
            self.probes = []
            super().__init__(*args, **kwargs)

        def mtu(self, *args, **kwargs):
            if self.limit is None:
                result = super().mtu(*args, **kwargs)
            else:
                size = kwargs.get("probe_size", UDP_DEFAULT_MTU)
                data = kwargs.get("probe_create", bytes)(size)
                self.probes.append((size, data))
                result = self.limit
            self.limit = result
            return result

        def sendto(self, data, addr=None):
            self.sent.append(bytes(data))
            if self.fault is None:
                super().sendto(data, addr=addr)
            else:
                self.fault(data, lambda x: UdpConnection.sendto(self, x))

        async def process_datagram(self, data, addr):
            self.seen.append((bytes(data), addr))
            return await super().process_datagram(data, addr)

        def handle_update(self, timestamp_ns, instance, addr):
            self.log.append(
                (timestamp_ns, instance, addr, snapshot(layout, instance),
                 fields(layout, instance),
                 [instance.env[x][0].raw.last_updated_ns
                  for x in layout.names])
            )

    return Generated, Link, clock


def snapshot(layout, instance):
    """Get raw values."""
    return [instance.env[x][0].raw.value for x in layout.names]


def fields(layout, instance):
    """Get bit-field values."""
    env = instance.env
    return [int(env.value(x[0], resolve_enum=False)) for x in layout.fields]


def same(left, right):
    """Compare snapshots."""
    return len(left) == len(right) and all(
        prims.same(x, y) for x, y in zip(left, right)
    )


def field_values(layout, values):
    """Get the values bit fields must have."""
    return [
        (values[2 + i] >> bit) & ((1 << width) - 1)
        for _, i, bit, width in layout.fields
    ]


class Faults:
    """What happens to datagrams."""

    def __init__(self, case, style):
        self.case = case
        self.style = style
        self.held = []
        self.arrived = []  # indices of datagrams, in order of arrival
        self.count = 0

    def __call__(self, data, send):
        rng = self.case.rng
        index = self.count
        self.count += 1
        roll = rng.random() if self.style != "none" else 1.0

        def out(item):
            self.arrived.append(item[0])
            send(item[1])

        if roll < 0.15:
            self.case.event("dropped")
        elif roll < 0.3:
            self.case.event("duplicated")
            out((index, data))
            out((index, data))
        elif roll < 0.5:
            self.case.event("reordered")
            self.held.append((index, data))
            return
        else:
            out((index, data))
        if self.held and rng.random() < 0.6:
            out(self.held.pop(rng.randrange(len(self.held))))

    def flush(self, send):
        """Deliver what's held back."""
        for index, data in self.held:
            self.arrived.append(index)
            send(data)
        self.held.clear()


def change(case, layout, instance):
    """Change some values."""

    rng = case.rng
    if rng.random() < 0.2:
        return
    for name, kind, enum in layout.items:
        if rng.random() < 0.5:
            continue
        raw = instance.env[name][0].raw
        if enum is not None:
            text = rng.choice(list(enum[1]))
            instance.env.set(name, text)
        else:
            raw.value = prims.value(rng, kind)
    for name, _, _, width in layout.fields:
        if rng.random() < 0.3:
            instance.env.set(name, rng.getrandbits(width))


def sampler(case, layout, clock, tx):
    """Create a function that performs a capture action and a model."""

    rng = case.rng
    model = {"pending": [], "frames": [], "samples": []}

    def step():
        """Perform one action, get whether a datagram must be sent."""
        instance = tx.struct_tx
        limit = (tx.limit - UDP_HEADER_SIZE) // layout.size
        mode = rng.choice(
            ["sample"] * 8 + ["flush", "sample_flush", "poll", "nothing"]
        )
        clock["now"] += rng.choice([0, 1, 1000, 10**9])
        change(case, layout, instance)
        expect = False
        before = len(tx.sent)
        sequence = instance.sequence.value
        sample = mode in ("sample", "sample_flush")
        flush = mode in ("flush", "sample_flush")
        if mode == "poll":
            instance.poll()
        elif mode == "sample" and rng.random() < 0.5:
            tx.capture()
        else:
            tx.capture(sample=sample, flush=flush)
        if mode == "poll" or sample:
            case.equal(
                (instance.timestamp.value, instance.sequence.value),
                (clock["now"], (sequence + 1) % 65536),
                "timestamp-sequence", mode,
            )
            if sequence == 65535:
                case.event("wraps")
        if sample:
            case.event("samples")
            values = snapshot(layout, instance)
            model["pending"].append(values)
            model["samples"].append(values)
        if len(model["pending"]) == limit:
            case.event("full_frames")
            expect = True
        elif flush and model["pending"]:
            case.event("flushed")
            expect = True
        elif flush:
            case.event("empty_flush")
        if expect:
            model["frames"].append(model["pending"])
            model["pending"] = []
        case.equal(
            len(tx.sent) - before, int(expect), "frame-sent",
            f"{mode}, {limit} per frame, pending {len(model['pending'])}",
        )
        if expect:
            case.event("datagrams")
            data = tx.sent[-1]
            want = model["frames"][-1]
            case.equal(
                len(data), len(want) * layout.size, "frame-size",
                f"{len(want)} samples",
            )
            case.expect(
                len(data) <= tx.limit - UDP_HEADER_SIZE, "frame-limit",
                f"{len(data)} bytes, limit {tx.limit}",
            )
            for i, values in enumerate(want):
                got = layout.decode(
                    data[i * layout.size:(i + 1) * layout.size]
                )
                case.expect(
                    same(got, values), "encoded-sample",
                    f"sample {i} of {len(want)}: {got} != {values}",
                )
        return expect

    return model, step


def choose_limit(case, layout):
    """Choose a link's limit."""

    rng = case.rng
    count = rng.choice([1, 1, 2, 3, 5, 20, 100])
    extra = rng.choice([0, 0, 1, layout.size - 1])
    if extra == 0:
        case.event("exact_fit")
    return UDP_HEADER_SIZE + count * layout.size + extra


def judge(case, layout, log, frames, instance, addr, where):
    """Compare a receiver's log with frames that arrived."""

    want = [x for frame in frames for x in frame]
    case.equal(len(log), len(want), "decoded-count", where)
    for i, (entry, values) in enumerate(zip(log, want)):
        case.event("decoded")
        stamp, inst, source, got, bits, updated = entry
        case.expect(
            same(got, values), "decoded-sample",
            f"{where}: update {i}: {got} != {values}",
        )
        case.equal(bits, field_values(layout, values), "decoded-fields",
                   f"{where}: update {i}")
        case.equal(stamp, values[0], "decoded-timestamp", where)
        case.expect(
            all(x == values[0] for x in updated), "updated-timestamp",
            f"{where}: {updated} != {values[0]}",
        )
        case.expect(inst is instance, "decoded-instance", where)
        if addr is not None:
            case.equal(source[1], addr, "decoded-source", where)


async def build(case, kind, *wanted):
    """Build structs in an application."""

    arb = ConnectionArbiter(logger=LOG)
    arb.register_struct_factory(kind)
    found = {}
    for name in wanted:
        case.expect(
            arb.factory_struct("Generated", name, {}), "struct", name
        )

    async def app(info):
        found["app"] = info
        for item in info.search_structs(kind):
            found[item.name] = item
        return 0

    case.equal(await arb.app(app), 0, "application-result")
    return found


def run_link(case):
    """One sender and one receiver."""

    rng = case.rng
    case.event("links")
    layout = Layout(case)
    kind, link, clock = create(case, layout)

    async def main():
        found = await build(case, kind, "tx", "rx")
        tx, rx = await link.create_pair()
        if layout.size > UDP_DEFAULT_MTU:
            return
        if rng.random() < 0.85:
            case.event("negotiated")
            tx.limit = choose_limit(case, layout)
        clock["now"] += 1
        if rng.random() < 0.3:
            found["tx"].sequence.value = 65536 - rng.randint(1, 6)
        if rng.random() < 0.5:
            rx.assign_rx(found["rx"])
            tx.assign_tx(found["tx"])
        else:
            info = found["app"]
            case.expect(
                rx.assign_app_rx("^zzz", info) is None
                and rx.assign_app_rx(".x", info) is None,
                "assign-ambiguous", "",
            )
            case.expect(
                rx.assign_app_rx("rx", info) is found["rx"], "assign-rx", ""
            )
            case.expect(
                tx.assign_app_tx("tx", info) is found["tx"], "assign-tx", ""
            )
        case.distinct((layout.items, tx.limit, layout.order))
        for size, data in tx.probes:
            case.expect(
                0 < len(data) <= size and len(data) % layout.size == 0,
                "probe-size", f"{len(data)} bytes, probe size {size}",
            )
        stop = asyncio.Event()
        tasks = [
            asyncio.create_task(x.process(stop_sig=stop)) for x in (tx, rx)
        ]
        await asyncio.sleep(0)

        # The probe may have arrived.
        probed = sum(1 for _ in tx.probes)
        if not tx.probes:
            await settle(lambda: rx.seen, rounds=30)
            rx.log.clear()
            rx.seen.clear()
        del probed

        style = rng.choice(["none", "faults", "faults"])
        faults = Faults(case, style)
        tx.fault = faults
        model, step = sampler(case, layout, clock, tx)
        hostile = rng.random() < 0.4
        bad = []

        def raw(data):
            UdpConnection.sendto(tx, data)

        def seen():
            return len(rx.seen) >= len(faults.arrived) + len(bad)

        for _ in range(rng.choice([5, 20, 60, 120])):
            if step() and rng.random() < 0.3:
                await settle(seen)
                # Nothing stays behind, large datagrams could be dropped.
            if hostile and rng.random() < 0.1:
                await settle(seen)
                size = layout.size
                data = rng.choice([
                    rng.randbytes(rng.randint(1, size - 1)),
                    layout.element(rng) + b"\x00",
                    layout.element(rng) * 2 + rng.randbytes(size - 1),
                    b"hello", b"\x00",
                ])
                if len(data) % size:
                    case.event("malformed")
                    bad.append(data)
                    before = snapshot(layout, found["rx"])
                    count = len(rx.log)
                    raw(data)
                    await settle(seen)
                    case.expect(
                        len(rx.log) == count
                        and same(snapshot(layout, found["rx"]), before),
                        "malformed-decoded", f"{len(data)} of {size} bytes",
                    )
                    case.expect(
                        not tasks[1].done(), "malformed-ended-receiver",
                        f"{len(data)} bytes, element size {size}",
                    )
            if sum(len(x) for x in tx.sent[-4:]) > 30000:
                await settle(seen)
            elif rng.random() < 0.2:
                await settle(seen)
        faults.flush(raw)
        case.expect(
            await settle(seen), "lost",
            f"{len(rx.seen)} of {len(faults.arrived) + len(bad)} arrived",
        )

        frames = [model["frames"][i] for i in faults.arrived]
        judge(case, layout, rx.log, frames, found["rx"],
              tx.local_address.port, "link")
        sent = [layout.decode(x[i:i + layout.size]) for x in tx.sent
                for i in range(0, len(x), layout.size)]
        kept = len(model["samples"]) - len(model["pending"])
        case.expect(
            len(sent) == kept
            and all(same(x, y) for x, y in zip(sent, model["samples"])),
            "sent-once", f"{len(sent)} of {kept}",
        )

        # Losses are visible.
        last = None
        for entry in rx.log if style == "none" else ():
            if last is not None:
                case.event("quiet_updates")
                case.expect(
                    entry[0] >= last, "timestamps", f"{entry[0]} {last}"
                )
            last = entry[0]

        case.expect(
            tx.struct_rx is None and not tx.log, "sender-received", ""
        )
        stop.set()
        await asyncio.gather(*tasks)

    vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)


def run_several(case):
    """Several senders, one receiver that isn't connected."""

    rng = case.rng
    case.event("several_senders")
    layout = Layout(case)
    kind, link, clock = create(case, layout)

    async def main():
        count = rng.randint(2, 4)
        wanted = [f"tx{i}" for i in range(count)]
        found = await build(case, kind, "rx", *wanted)
        rx = await link.create_connection(
            local_addr=("127.0.0.1", 0), family=socket.AF_INET
        )
        rx.assign_rx(found["rx"])
        case.distinct((layout.items, count))
        stop = asyncio.Event()
        tasks = [asyncio.create_task(rx.process(stop_sig=stop))]
        senders = []
        for name in wanted:
            tx = await link.create_connection(
                remote_addr=("127.0.0.1", rx.local_address.port)
            )
            tx.limit = choose_limit(case, layout)
            tx.assign_tx(found[name])
            tx.fault = Faults(case, "none")
            senders.append((tx, *sampler(case, layout, clock, tx)))
            tasks.append(asyncio.create_task(tx.process(stop_sig=stop)))
        total = [0]
        stranger = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        for _ in range(rng.choice([20, 60])):
            tx, _, step = rng.choice(senders)
            if step():
                total[0] += 1
                await settle(lambda: len(rx.seen) >= total[0])
            if rng.random() < 0.1:
                # Strangers.
                data = rng.choice(
                    [b"", b"\x00", rng.randbytes(layout.size + 1)]
                )
                case.event("malformed")
                before = len(rx.log), snapshot(layout, found["rx"])
                total[0] += 1
                stranger.sendto(data, ("127.0.0.1", rx.local_address.port))
                await settle(lambda: len(rx.seen) >= total[0])
                case.expect(
                    len(rx.log) == before[0]
                    and same(snapshot(layout, found["rx"]), before[1]),
                    "malformed-decoded", f"{len(data)} bytes",
                )
                case.expect(
                    not tasks[0].done(), "malformed-ended-receiver",
                    f"{len(data)} bytes",
                )
        for tx, model, _ in senders:
            log = [x for x in rx.log if x[2][1] == tx.local_address.port]
            judge(case, layout, log, model["frames"], found["rx"],
                  tx.local_address.port, "several")
        case.equal(len(rx.seen), total[0], "received", "")
        stranger.close()
        stop.set()
        await asyncio.gather(*tasks)

    vloop.run(main(), limit=1e5, real_limit=60.0, grace=0)


class Items:
    """A generated serializable and its bytes."""

    def __init__(self, case):
        rng = case.rng
        self.parts = []
        chain = None
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.3:
                part = FixedChunk(rng.randbytes(rng.randint(1, 9)))
            else:
                part = PrimitiveArray(
                    *[prims.make(rng.choice(CHANNELS))
                      for _ in range(rng.randint(1, 5))],
                    byte_order=rng.choice(list(prims.orders())),
                )
            self.parts.append(part)
            if chain is None:
                chain = part
            else:
                chain.end.assign(part)
        self.base = chain
        if len(self.parts) > 1:
            case.event("chains")
        self.size = sum(len(bytes(x)) for x in self.parts)

    def change(self, rng):
        """Change contents."""
        for part in self.parts:
            if isinstance(part, FixedChunk):
                part.update(rng.randbytes(part.size))
            else:
                data = b"".join(
                    rng.choice([b"\x00", b"\x01"]) for _ in range(part.size)
                )
                part.update(data)

    def data(self):
        """Get the contents."""
        return b"".join(bytes(x) for x in self.parts)


def run_framer(case):
    """Frames of arbitrary serializables."""

    rng = case.rng
    case.event("framers")
    items = Items(case)
    size = items.size

    def choose():
        count = rng.choice([1, 2, 3, 7])
        overhead = rng.choice([0, 8, 68])
        extra = rng.choice([0, 0, size - 1])
        return count, count * size + overhead + extra, overhead

    count, mtu, overhead = choose()
    framer = SerializableFramer(items.base, mtu)
    limit = mtu // size
    case.distinct((size, mtu, [type(x).__name__ for x in items.parts]))
    if rng.random() < 0.7:
        case.equal(
            framer.set_mtu(mtu, protocol_overhead=overhead), count,
            "frame-elements", f"{mtu} {overhead} {size}",
        )
        limit = count
    pending = []
    for _ in range(rng.choice([5, 30])):
        mode = rng.random()
        if mode < 0.05:
            # A new limit starts a new frame.
            count, mtu, overhead = choose()
            case.equal(
                framer.set_mtu(mtu, LOG, overhead), count,
                "frame-elements", f"{mtu} {overhead} {size}",
            )
            limit = count
            pending.clear()
        elif mode < 0.1:
            framer.reset()
            pending.clear()
        elif mode < 0.13:
            # Not even one element fits.
            try:
                SerializableFramer(items.base, size - 1)
                case.fail("too-small", f"{size}")
            except AssertionError:
                pass
        items.change(rng)
        sample = rng.random() < 0.8
        flush = rng.random() < 0.15
        got = framer.capture(sample=sample, flush=flush)
        if sample:
            pending.append(items.data())
        want = None
        if pending and (flush or len(pending) == limit):
            want = b"".join(pending)
            pending.clear()
        case.equal(got, want, "frame", f"{limit} of {size} bytes")
        if want is not None:
            # Can be restored.
            again = items.base.copy()
            with BytesIO(got) as stream:
                for _ in range(len(got) // size):
                    again.from_stream(stream)
                case.equal(stream.read(), b"", "frame-rest")
            with BytesIO() as stream:
                again.to_stream(stream)
                case.equal(stream.getvalue(), got[-size:], "frame-restored")


def run_sample(case):
    """The sample application, its task and configuration."""

    from runtimepy.telemetry.sample import (
        SampleTelemetryTask,
        SampleTelemetryTransceiver,
    )

    rng = case.rng
    case.event("sample_apps")
    flush = rng.choice([1, 2, 3, 7, 10, 1000])
    case.distinct(flush)

    log = []
    sent = []

    async def main():
        arb = ConnectionArbiter(logger=LOG)
        case.expect(
            await arb.load_configs(
                ["package://runtimepy/sample_telemetry.yaml"]
            ) is None, "configuration", "",
        )
        original = SampleTelemetryTransceiver.sendto
        original_update = SampleTelemetryTransceiver.handle_update

        def get(instance):
            return dict(instance.env.values(resolve_enum=False))

        def sendto(self, data, addr=None):
            sent.append(bytes(data))
            return original(self, data, addr=addr)

        def update(self, timestamp_ns, instance, addr):
            log.append((timestamp_ns, get(instance), addr, self, instance))

        SampleTelemetryTransceiver.sendto = sendto
        SampleTelemetryTransceiver.handle_update = update

        async def app(info):
            task = next(info.search_tasks(SampleTelemetryTask))
            tx = next(info.search_structs(
                kind=SampleTelemetryTransceiver.struct_kind, pattern="tx"
            ))
            rx = next(info.search_structs(
                kind=SampleTelemetryTransceiver.struct_kind, pattern="rx"
            ))
            await task.env.wait_finalized()
            task.flush_count.value = flush
            samples = []
            poll = tx.poll

            def hook():
                poll()
                samples.append(get(tx))

            tx.poll = hook
            for _ in range(rng.choice([20, 60])):
                tx.env.set("sample_float", prims.value(rng, "double", False))
                tx.env.set("sample_enum", rng.randrange(2**32))
                tx.env.set("sample_state", rng.random() < 0.5)
                await asyncio.sleep(0.02)
            total = sum(len(x) for x in sent) // rx.array.size
            port = task.tx_conn.local_address.port

            def mine():
                return [x for x in log if x[2][1] == port]

            await settle(lambda: len(mine()) >= total)
            got = mine()
            case.equal(len(got), total, "sample-count")
            # The first samples may predate the hook.
            early = total - len(samples)
            pend = [x for x in samples]
            offset = None
            for i, (stamp, values, _, conn, instance) in enumerate(got):
                case.expect(
                    conn is task.rx_conn and instance is rx,
                    "sample-receiver", "",
                )
                case.equal(values["timestamp"], stamp, "sample-timestamp")
                if offset is None:
                    match = [
                        j for j, x in enumerate(pend)
                        if x["sequence"] == values["sequence"]
                    ]
                    if not match:
                        continue
                    offset = i - match[0]
                case.event("decoded")
                case.equal(values, pend[i - offset], "sample-values", f"{i}")
            case.expect(
                flush > 500 or offset is not None, "sample-nothing",
                f"{early} {len(got)} {len(samples)}",
            )
            for data in sent:
                case.expect(
                    len(data) % rx.array.size == 0, "sample-size", ""
                )
            seqs = [x[1]["sequence"] for x in got]
            case.expect(
                all((b - a) % 65536 == 1 for a, b in zip(seqs, seqs[1:])),
                "sample-sequence", f"{seqs}",
            )
            return 0

        try:
            case.equal(await arb.app(app), 0, "sample-result")
        finally:
            SampleTelemetryTransceiver.sendto = original
            SampleTelemetryTransceiver.handle_update = original_update

    vloop.run(main(), limit=1e5, real_limit=60.0)


KINDS = {
    "link": (run_link, 420, 12000),
    "several": (run_several, 60, 1500),
    "framer": (run_framer, 500, 15000),
    "sample": (run_sample, 6, 100),
}
