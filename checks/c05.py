"""C05: chained serializable data encodes in order; copies are independent."""

from copy import copy
from io import BytesIO

from lib import prims

from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.serializable import FixedChunk, PrefixedChunk
from runtimepy.primitives.serializable.framer import SerializableFramer

PROPERTY = "C05"
RULE = (
    "random chains of arrays, fixed and length-prefixed chunks; encode, "
    "decode, copy and write sequences; multi-sample frames for random sizes; "
    "non-trivial = distinct chain shapes/frames"
)
REQUIRED = {"chains": 4000, "copies": 4000, "frames": 1000,
            "samples": 20000, "repeats": 1000}

PREFIXES = {"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8}


def blob(rng, limit=40):
    if rng.random() < 0.3:
        return prims.text(rng, limit).encode()[:limit]
    return rng.randbytes(rng.choice([0, 1, 2, limit, rng.randrange(limit)]))


class Part:
    """A chain element together with its model."""

    def __init__(self, rng):
        self.kind = rng.choice(["array", "fixed", "prefixed"])
        self.order, self.endian = rng.choice(list(prims.orders().items()))
        if self.kind == "array":
            self.kinds = [
                rng.choice(prims.KINDS) for _ in range(rng.randrange(4))
            ]
            self.item = PrimitiveArray(
                *[prims.make(k) for k in self.kinds], byte_order=self.order
            )
        elif self.kind == "fixed":
            self.data = blob(rng)
            self.item = FixedChunk(self.data)
        else:
            self.prefix = rng.choice(list(PREFIXES))
            if rng.random() < 0.3:
                self.item = PrefixedChunk.create(self.prefix)
                self.endian = "big"
            else:
                self.item = PrefixedChunk(
                    prims.make(self.prefix), byte_order=self.order
                )
        self.write(rng)

    def write(self, rng, item=None):
        """Assign new contents."""
        if item is None:
            item = self.item
        if self.kind == "array":
            self.values = [prims.value(rng, k, nan=False) for k in self.kinds]
            for i, value in enumerate(self.values):
                item[i].value = value
        elif self.kind == "fixed":
            self.data = rng.randbytes(len(self.data))
            item.update(self.data)
        else:
            limit = 255 if self.prefix == "uint8" else 600
            self.data = blob(rng, limit)
            if rng.random() < 0.3:
                text = prims.text(rng, 30)
                self.data = text.encode()
                item.update_str(text)
            else:
                item.update(self.data)

    def encode(self):
        if self.kind == "array":
            return b"".join(
                prims.model_encode(k, v, self.endian)
                for k, v in zip(self.kinds, self.values)
            )
        if self.kind == "fixed":
            return self.data
        return (
            prims.model_encode(self.prefix, len(self.data), self.endian)
            + self.data
        )

    def clone(self):
        other = copy(self)
        return other


def links(head):
    """The elements of a chain, in order."""
    result = []
    while head is not None:
        result.append(head)
        head = head.chain
    return result


def verify(case, head, parts, where):
    """All observations of a chain against its model."""
    want = b"".join(p.encode() for p in parts)
    case.equal(head.length(), len(want), "length", where)
    with BytesIO() as stream:
        written = head.to_stream(stream)
        case.equal(stream.getvalue(), want, "bytes", where)
        case.equal(written, len(want), "written", where)
    for item, part in zip(links(head), parts):
        case.equal(bytes(item), part.encode(), "element", where)
        case.equal(item.size, len(part.encode()), "element-size", where)
    return want


def chains(case):
    """Encode/decode/copy/write programs."""

    rng = case.rng
    parts = [Part(rng) for _ in range(rng.randint(1, 6))]
    head = parts[0].item
    for part in parts[1:]:
        if rng.random() < 0.5:
            head.add_to_end(part.item)
        else:
            head.end.assign(part.item)
    case.equal(head.end, parts[-1].item, "end")

    # Repeats of a further element.
    if rng.random() < 0.4:
        part = Part(rng)
        count = rng.randint(1, 4)
        size = part.item.length()
        case.equal(
            head.add_to_end(part.item, array_length=count), size * count,
            "repeat-size",
        )
        case.equal(len(links(head)), len(parts) + count, "repeat-count")
        parts.append(part)
        items = links(head)
        for item in items[len(parts):]:
            other = part.clone()
            other.item = item
            parts.append(other)
        case.event("repeats")
        case.equal(head.elements(), len(parts), "elements")
        case.equal(head.end, parts[-1].item, "repeat-end")
    verify(case, head, parts, "built")
    case.event("chains")

    twin, twin_parts = None, None
    for _ in range(rng.randint(2, 8)):
        action = rng.choice(["write", "decode", "copy", "twin", "single"])
        if action == "write":
            rng.choice(parts).write(rng)
        elif action == "decode":
            # Another instance with the same shape produces the stream.
            source = head.copy()
            new_parts = []
            for part, item in zip(parts, links(source)):
                other = part.clone()
                other.item = item
                other.write(rng)
                new_parts.append(other)
            data = verify(case, source, new_parts, "source")
            with BytesIO(data + b"\x01tail") as stream:
                case.equal(head.from_stream(stream), len(data), "consumed")
                case.equal(stream.read(), b"\x01tail", "trailing")
            for part, other in zip(parts, new_parts):
                for attr in ("values", "data"):
                    if hasattr(other, attr):
                        setattr(part, attr, getattr(other, attr))
        elif action == "copy":
            twin = copy(head) if rng.random() < 0.5 else head.copy()
            twin_parts = []
            for part, item in zip(parts, links(twin)):
                other = part.clone()
                other.item = item
                twin_parts.append(other)
            case.equal(len(links(twin)), len(parts), "copy-links")
            for one, two in zip(links(head), links(twin)):
                case.expect(one is not two, "copy-alias", type(one))
                case.equal(type(one), type(two), "copy-type")
            case.event("copies")
        elif action == "twin" and twin is not None:
            rng.choice(twin_parts).write(rng)
        elif action == "single":
            part = rng.choice(parts)
            lone = part.item.copy_without_chain()
            case.equal(lone.chain, None, "lone-chain")
            case.equal(bytes(lone), part.encode(), "lone-bytes")
            other = part.clone()
            other.item = lone
            other.write(rng)
            case.equal(bytes(lone), other.encode(), "lone-written")
            case.event("copies")
        verify(case, head, parts, action)
        if twin is not None:
            verify(case, twin, twin_parts, f"twin after {action}")
    case.distinct([p.kind for p in parts], len(parts[0].encode()))
    case.sample(f"{[p.kind for p in parts]} {head.length()} bytes")


def frames(case):
    """Multi-sample framing."""

    rng = case.rng
    kinds = [rng.choice(prims.KINDS) for _ in range(rng.randint(1, 6))]
    order, endian = rng.choice(list(prims.orders().items()))
    array = PrimitiveArray(*[prims.make(k) for k in kinds], byte_order=order)
    size = array.size
    overhead = rng.choice([0, 0, 8, 28])
    mtu = overhead + rng.choice([size, size + 1, 2 * size - 1, 3 * size,
                                 rng.randint(size, size * 40)])
    framer = SerializableFramer(array, mtu)
    case.equal(
        framer.set_mtu(mtu, protocol_overhead=overhead),
        (mtu - overhead) // size,
        "frame-elements",
    )
    sent = []
    got = b""
    for _ in range(rng.randint(5, 100)):
        sample = rng.random() < 0.85
        flush = rng.random() < 0.1
        if sample:
            values = [prims.value(rng, k, nan=False) for k in kinds]
            for i, value in enumerate(values):
                array[i].value = value
            sent.append(values)
            case.event("samples")
        frame = framer.capture(sample=sample, flush=flush)
        if frame is None:
            pending = len(sent) * size - len(got)
            case.expect(
                pending < (mtu - overhead) // size * size,
                "frame-withheld",
                f"{pending} pending of {mtu}",
            )
            case.expect(not flush or pending == 0, "flush-withheld")
            continue
        case.expect(len(frame) > 0, "frame-empty")
        case.expect(
            len(frame) <= mtu - overhead,
            "frame-too-big",
            f"{len(frame)} > {mtu} - {overhead}",
        )
        case.equal(len(frame) % size, 0, "frame-partial")
        if not flush:
            case.equal(
                len(frame) // size, (mtu - overhead) // size, "frame-short"
            )
        got += frame
        case.event("frames")
    rest = framer.capture(sample=False, flush=True)
    if rest is not None:
        got += rest
    case.equal(
        framer.capture(sample=False, flush=True), None, "flush-again"
    )
    want = b"".join(
        b"".join(prims.model_encode(k, v, endian) for k, v in zip(kinds, row))
        for row in sent
    )
    case.equal(got, want, "frame-stream", f"{len(got)} {len(want)}")
    other = array.copy()
    with BytesIO(got) as stream:
        for row in sent:
            other.from_stream(stream)
            case.expect(
                all(
                    prims.same(other[i].value, v) for i, v in enumerate(row)
                ),
                "frame-values",
                f"{row}",
            )
    case.distinct(kinds, mtu, overhead)
    case.sample(f"{len(sent)} samples of {size} bytes, mtu {mtu}")


KINDS = {"chains": (chains, 5000, 60000), "frames": (frames, 1000, 12000)}
