"""C01: scalar and string values survive every binary encoding exactly."""

from io import BytesIO

from lib import prims

from runtimepy.primitives import create
from runtimepy.primitives.string import StringPrimitive

PROPERTY = "C01"
RULE = (
    "seeded random kinds x byte orders x boundary-biased values through every "
    "encode/decode entry point, plus mixed stream programs and exhaustive "
    "8-bit/half sweeps; a case is non-trivial when its (kind, order, value, "
    "entry point) tuple is new"
)
REQUIRED = {"encodes": 2000, "stream_items": 500, "strings": 200}
ORDERS = prims.orders()


def check_value(case, kind, value, order):
    """Drive one value through every entry point."""

    endian = ORDERS[order]
    want = prims.model_encode(kind, value, endian)
    prim = create(kind)
    cls = type(prim)
    case.event("encodes")

    case.equal(prim.size, prims.SIZES[kind], "size", kind)
    case.equal(
        cls.encode(value, byte_order=order), want, "encode", f"{kind} {value}"
    )
    case.expect(
        prims.same(cls.decode(want, byte_order=order), value),
        "decode",
        f"{kind} {order.name} {want!r} -> "
        f"{cls.decode(want, byte_order=order)} not {value}",
    )

    prim.value = value
    case.expect(
        prims.same(prim.value, value), "store", f"{kind} {prim.value} {value}"
    )
    case.equal(prim.binary(byte_order=order), want, "binary", f"{kind}")
    default = ORDERS[prim.byte_order]
    case.equal(
        bytes(prim), prims.model_encode(kind, value, default), "bytes", kind
    )

    # Streams.
    stream = BytesIO()
    stream.write(b"\xa5")
    count = prim.to_stream(stream, byte_order=order)
    case.equal(count, len(want), "to_stream-count", kind)
    count = cls.write(value, stream, byte_order=order)
    case.equal(count, len(want), "write-count", kind)
    stream.write(b"\x5a")
    case.equal(
        stream.getvalue(), b"\xa5" + want * 2 + b"\x5a", "stream-bytes", kind
    )

    stream.seek(1)
    fresh = create(kind)
    result = fresh.from_stream(stream, byte_order=order)
    case.equal(stream.tell(), 1 + len(want), "from_stream-consumed", kind)
    case.expect(
        prims.same(fresh.value, value) and prims.same(result, value),
        "from_stream",
        f"{kind} {result} {fresh.value} {value}",
    )
    result = cls.read(stream, byte_order=order)
    case.equal(stream.tell(), 1 + 2 * len(want), "read-consumed", kind)
    case.expect(prims.same(result, value), "read", f"{kind} {result} {value}")

    # Existing instance with another value.
    other = prims.value(case.rng, kind, nan=False)
    existing = prims.make(kind, value=other)
    result = existing.update(want, byte_order=order)
    case.expect(
        prims.same(existing.value, value) and prims.same(result, value),
        "update",
        f"{kind} {other}->{value} got {existing.value}",
    )
    case.expect(
        prims.same(prim.copy().value, value), "copy", f"{kind} {value}"
    )


def values(case):
    rng = case.rng
    kind = rng.choice(prims.KINDS)
    order = rng.choice(list(ORDERS))
    for _ in range(25):
        val = prims.value(rng, kind)
        check_value(case, kind, val, order)
        case.distinct(kind, order, val)
    case.sample(f"{kind} {order.name} last value {val!r}")


def streams(case):
    """Mixed writes followed by mixed reads on one stream."""

    rng = case.rng
    stream = BytesIO()
    model = b""
    items = []
    for _ in range(rng.randint(3, 40)):
        order = rng.choice(list(ORDERS))
        if rng.random() < 0.25:
            prefix = rng.choice(["uint8", "uint16", "uint32", "uint64"])
            txt = prims.text(rng)
            raw = txt.encode()
            inst = StringPrimitive(
                txt, kind=type(create(prefix)), byte_order=order
            )
            count = inst.write(stream)
            want = prims.model_encode(prefix, len(raw), ORDERS[order]) + raw
            items.append(("str", prefix, order, txt))
        else:
            kind = rng.choice(prims.KINDS)
            val = prims.value(rng, kind)
            want = prims.model_encode(kind, val, ORDERS[order])
            if rng.random() < 0.5:
                count = prims.make(kind, value=val).to_stream(
                    stream, byte_order=order
                )
            else:
                count = type(create(kind)).write(val, stream, byte_order=order)
            items.append(("prim", kind, order, val))
        case.equal(count, len(want), "stream-count", items[-1])
        model += want
        case.equal(stream.tell(), len(model), "stream-position", items[-1])
    case.equal(stream.getvalue(), model, "stream-content")

    stream.seek(0)
    pool = {}
    for form, kind, order, val in items:
        case.event("stream_items")
        if form == "str":
            if rng.random() < 0.5:
                got = StringPrimitive.from_stream(
                    stream, kind=type(create(kind)), byte_order=order
                ).value
            else:
                inst = StringPrimitive(
                    prims.text(rng), kind=type(create(kind)), byte_order=order
                )
                got = inst.read(stream)
                case.equal(inst.value, got, "string-value")
            case.equal(got, val, "string-roundtrip", kind)
        else:
            if rng.random() < 0.5:
                prim = pool.setdefault(kind, create(kind))
                got = prim.from_stream(stream, byte_order=order)
            else:
                got = type(create(kind)).read(stream, byte_order=order)
            case.expect(
                prims.same(got, val), "stream-value", f"{kind} {got} {val}"
            )
    case.equal(stream.tell(), len(model), "stream-consumed")
    case.distinct([x[:3] for x in items])
    case.sample(f"{len(items)} items, {len(model)} bytes")


def strings(case):
    """String primitives over all prefixes, sizes and re-assignments."""

    rng = case.rng
    for _ in range(12):
        prefix = rng.choice(list(prims.INTS))
        limit = 120 if prefix in ("int8",) else 250
        order = rng.choice(list(ORDERS))
        kwargs = {"kind": type(create(prefix)), "byte_order": order}
        inst = None
        for _ in range(3):
            txt = prims.text(rng, limit=rng.choice([1, 5, 40, 300]))
            while len(txt.encode()) > limit:
                txt = txt[: len(txt) // 2]
            if inst is None:
                inst = StringPrimitive(txt, **kwargs)
            else:
                inst.set(txt)
            case.event("strings")
            raw = txt.encode()
            want = prims.model_encode(prefix, len(raw), ORDERS[order]) + raw
            stream = BytesIO()
            case.equal(inst.write(stream), len(want), "string-written", txt)
            case.equal(stream.getvalue(), want, "string-bytes", txt)
            case.equal(inst.size, len(want), "string-size", txt)
            case.equal(inst.value, txt, "string-value", txt)
            case.equal(str(inst), txt, "string-str", txt)
            case.expect(inst == txt, "string-eq", txt)
            stream.write(b"tail")
            stream.seek(0)
            got = StringPrimitive.from_stream(stream, **kwargs)
            case.equal(got.value, txt, "string-from_stream", txt)
            case.equal(stream.read(), b"tail", "string-consumed", txt)
            case.equal(got.size, len(want), "string-size-read", txt)
            again = BytesIO()
            got.write(again)
            case.equal(again.getvalue(), want, "string-rewrite", txt)
            case.distinct(prefix, order, txt)
    case.sample(f"{prefix} {order.name} {txt!r}")


def sweep(case):
    """Exhaustive small kinds."""

    import struct

    order = list(ORDERS)[case.index % len(ORDERS)]
    endian = ORDERS[order]
    for kind in ("int8", "uint8", "bool"):
        low, high = (0, 1) if kind == "bool" else prims.bounds(kind)
        for val in range(low, high + 1):
            check_value(
                case, kind, bool(val) if kind == "bool" else val, order
            )
    wide = range(0, 1 << 16, 1 if case.thorough else 7)
    for kind in ("int16", "uint16", "half"):
        prim = create(kind)
        cls = type(prim)
        for raw in wide:
            data = raw.to_bytes(2, endian)
            fmt = {"int16": "h", "uint16": "H", "half": "e"}[kind]
            want = struct.unpack(
                ("<" if endian == "little" else ">") + fmt, data
            )[0]
            prim.update(data, byte_order=order)
            if not prims.same(prim.value, want):
                case.fail("sweep-update", f"{kind} {data!r} {prim.value}")
            if want == want:
                if prim.binary(byte_order=order) != data:
                    case.fail("sweep-binary", f"{kind} {data!r}")
                if cls.encode(want, byte_order=order) != data:
                    case.fail("sweep-encode", f"{kind} {data!r}")
        case.event("sweep_values", len(wide))
    case.distinct("sweep", order)
    case.sample(f"exhaustive {order.name}")


def byte_orders(case):
    """An instance's and a class's own byte order is honoured."""

    rng = case.rng
    kind = rng.choice(prims.KINDS)
    order = rng.choice(list(ORDERS))
    val = prims.value(rng, kind)
    prim = prims.make(kind, value=val)
    prim.byte_order = order
    want = prims.model_encode(kind, val, ORDERS[order])
    case.equal(bytes(prim), want, "instance-order", kind)
    stream = BytesIO()
    prim.to_stream(stream)
    case.equal(stream.getvalue(), want, "instance-order-stream", kind)
    other = create(kind)
    other.byte_order = order
    stream.seek(0)
    other.from_stream(stream)
    case.expect(prims.same(other.value, val), "instance-order-read", kind)
    other = create(kind)
    other.byte_order = order
    other.update(want)
    case.expect(prims.same(other.value, val), "instance-order-update", kind)
    # Overrides don't stick.
    for over in ORDERS:
        case.equal(
            prim.binary(byte_order=over),
            prims.model_encode(kind, val, ORDERS[over]),
            "order-override",
        )
    case.equal(bytes(prim), want, "order-sticky", kind)
    case.distinct(kind, order)


KINDS = {
    "values": (values, 1500, 9000),
    "streams": (streams, 900, 5400),
    "strings": (strings, 360, 2160),
    "sweep": (sweep, 24, 144),
    "byte_orders": (byte_orders, 600, 3600),
}
