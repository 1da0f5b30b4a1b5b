"""C04: arrays and fragments lay members out contiguously."""

from io import BytesIO

from lib import prims

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.field.fields import BitFields

PROPERTY = "C04"
RULE = (
    "random member kinds, repeat counts, byte orders, growth interleaved with "
    "fragments, copies, chains and environment-built arrays; non-trivial = "
    "distinct (member kinds, order) with at least two members"
)
REQUIRED = {
    "members": 2000,
    "fragment_reads": 500,
    "fragment_writes": 200,
    "index_lookups": 1000,
    "env_arrays": 40,
    "chained": 50,
    "copies": 50,
}


def layout(kinds):
    """Byte offsets of each member, and the total."""
    offsets, pos = [], 0
    for kind in kinds:
        offsets.append(pos)
        pos += prims.SIZES[kind]
    return offsets + [pos]


def encode(kinds, values, endian):
    return b"".join(
        prims.model_encode(k, v, endian) for k, v in zip(kinds, values)
    )


def fill(rng, array, kinds, start=0):
    """Assign random values, return what must be stored."""
    values = []
    for i, kind in enumerate(kinds):
        value = prims.value(rng, kind, nan=False)
        array[start + i].value = value
        values.append(value)
    return values


def read(array, kinds):
    return [array[i].value for i in range(len(kinds))]


def agree(case, array, kinds, values, endian, where):
    """The array's whole observable state."""
    case.equal(
        bytes(array), encode(kinds, values, endian), "encoding", where
    )
    case.equal(array.size, layout(kinds)[-1], "size", where)
    for i, (kind, value) in enumerate(zip(kinds, values)):
        case.expect(
            prims.same(array[i].value, value),
            "member",
            f"{where} [{i}] {kind} {array[i].value!r} {value!r}",
        )
    case.event("members", len(kinds))


def arrays(case):
    """Growth, fragments, updates."""

    rng = case.rng
    order, endian = rng.choice(list(prims.orders().items()))
    kinds = []
    values = []
    initial = [rng.choice(prims.KINDS) for _ in range(rng.randrange(4))]
    array = PrimitiveArray(
        *[prims.make(k) for k in initial], byte_order=order
    )
    kinds += initial
    values += [prims.make(k).value for k in initial]
    frags = []  # (fragment index, start, end)

    for _ in range(rng.randint(3, 14)):
        action = rng.choice(
            ["add", "add", "repeat", "frag", "bytefrag", "write", "update",
             "fragwrite", "fragread", "stream", "copy"]
        )
        if action == "add" or not kinds:
            kind = rng.choice(prims.KINDS)
            value = prims.value(rng, kind, nan=False)
            if rng.random() < 0.5:
                array.add(prims.make(kind, value))
                values.append(value)
            else:
                array.add_primitive(kind)
                values.append(prims.make(kind).value)
            kinds.append(kind)
        elif action == "repeat":
            kind = rng.choice(prims.KINDS)
            count = rng.randint(1, 5)
            value = prims.value(rng, kind, nan=False)
            result = array.add(prims.make(kind, value), array_length=count)
            kinds += [kind] * count
            values += [value] * count
            case.equal(result, layout(kinds)[-1], "add-result")
        elif action in ("frag", "bytefrag"):
            start = rng.randrange(len(kinds))
            end = rng.randint(start + 1, len(kinds))
            offs = layout(kinds)
            tail = end == len(kinds) and rng.random() < 0.5
            if action == "frag":
                idx = (
                    array.fragment_from_indices(start)
                    if tail
                    else array.fragment_from_indices(start, end)
                )
            else:
                idx = (
                    array.fragment_from_byte_indices(offs[start])
                    if tail
                    else array.fragment_from_byte_indices(
                        offs[start], offs[end]
                    )
                )
            case.equal(idx, len(frags), "fragment-index")
            frags.append((idx, start, end))
        elif action == "write":
            i = rng.randrange(len(kinds))
            values[i] = prims.value(rng, kinds[i], nan=False)
            array[i].value = values[i]
        elif action == "update":
            values = [prims.value(rng, k, nan=False) for k in kinds]
            case.equal(
                array.update(encode(kinds, values, endian)),
                layout(kinds)[-1],
                "update-result",
            )
        elif action == "stream":
            values = [prims.value(rng, k, nan=False) for k in kinds]
            data = encode(kinds, values, endian)
            with BytesIO(data + b"rest") as stream:
                case.equal(
                    array.from_stream(stream), len(data), "stream-result"
                )
                case.equal(stream.read(), b"rest", "stream-consumed")
            with BytesIO() as stream:
                case.equal(array.to_stream(stream), len(data), "to-stream")
                case.equal(stream.getvalue(), data, "to-stream-data")
        elif action == "fragread" and frags:
            idx, start, end = rng.choice(frags)
            want = encode(kinds[start:end], values[start:end], endian)
            case.equal(array.fragment_bytes(idx), want, "fragment-bytes")
            case.equal(
                bytes(array.fragment(idx)), want, "fragment-object"
            )
            case.equal(array.fragment(idx).size, len(want), "fragment-size")
            case.event("fragment_reads")
        elif action == "fragwrite" and frags:
            idx, start, end = rng.choice(frags)
            new = [prims.value(rng, k, nan=False) for k in kinds[start:end]]
            array.update_fragment(idx, encode(kinds[start:end], new, endian))
            values[start:end] = new
            case.event("fragment_writes")
        elif action == "copy":
            other = array.copy()
            agree(case, other, kinds, values, endian, "copy")
            case.equal(other.num_fragments, len(frags), "copy-fragments")
            new = fill(rng, other, kinds)
            for idx, start, end in frags:
                case.equal(
                    other.fragment_bytes(idx),
                    encode(kinds[start:end], new[start:end], endian),
                    "copy-fragment-bytes",
                )
            agree(case, other, kinds, new, endian, "copy-written")
            case.event("copies")
        agree(case, array, kinds, values, endian, action)
        case.equal(array.num_fragments, len(frags), "num-fragments")

    offs = layout(kinds)
    for i, off in enumerate(offs):
        case.equal(array.byte_at_index(i), off, "byte-at-index", f"{kinds}")
        case.equal(array.index_at_byte(off), i, "index-at-byte", f"{kinds}")
        case.event("index_lookups")
    for off in set(range(offs[-1])) - set(offs):
        try:
            got = array.index_at_byte(off)
        except KeyError:
            continue
        case.fail("index-inside-member", f"{kinds} {off} -> {got}")
    for idx, start, end in frags:
        case.equal(
            array.fragment_bytes(idx),
            encode(kinds[start:end], values[start:end], endian),
            "fragment-final",
        )
        case.event("fragment_reads")

    if len(kinds) > 1:
        case.distinct(kinds, endian, frags)
    case.sample(f"{endian} {kinds[:8]} fragments={frags[:3]}")

    array.reset()
    case.equal((bytes(array), array.size), (b"", 0), "reset")
    case.equal(array.num_fragments, 0, "reset-fragments")


def chains(case):
    """Arrays chained after one another."""

    rng = case.rng
    parts = []
    head = None
    for _ in range(rng.randint(2, 4)):
        order, endian = rng.choice(list(prims.orders().items()))
        kinds = [rng.choice(prims.KINDS) for _ in range(rng.randint(1, 4))]
        array = PrimitiveArray(
            *[prims.make(k) for k in kinds], byte_order=order
        )
        if head is None:
            head = array
        else:
            head.add_to_end(array)
        parts.append([array, kinds, endian, None])
    if rng.random() < 0.4:
        # Growing through the head extends the tail.
        kind = rng.choice(prims.KINDS)
        count = rng.randint(1, 3)
        head.add(prims.make(kind), array_length=count)
        parts[-1][1] += [kind] * count
    want = b""
    for part in parts:
        part[3] = fill(rng, part[0], part[1])
        want += encode(part[1], part[3], part[2])
    case.equal(head.length(), len(want), "chain-length")
    with BytesIO() as stream:
        case.equal(head.to_stream(stream), len(want), "chain-written")
        case.equal(stream.getvalue(), want, "chain-bytes")
    new = b""
    for part in parts:
        part[3] = [prims.value(rng, k, nan=False) for k in part[1]]
        new += encode(part[1], part[3], part[2])
    with BytesIO(new) as stream:
        case.equal(head.from_stream(stream), len(new), "chain-read")
    for array, kinds, endian, values in parts:
        agree(case, array, kinds, values, endian, "chain")
    case.event("chained")
    case.distinct([x[1] for x in parts])


def environments(case):
    """Arrays built from an environment's names."""

    rng = case.rng
    order, endian = rng.choice(list(prims.orders().items()))
    env = ChannelEnvironment()
    units = []  # (names, raw primitive, kind)
    count = 0
    for _ in range(rng.randint(1, 6)):
        if rng.random() < 0.6:
            kind = rng.choice([k for k in prims.KINDS if k != "half"])
            name = f"c{count}"
            count += 1
            chan, _ = env.channel(name, kind)
            units.append(([name], chan.raw, kind))
        else:
            kind = rng.choice(["uint8", "uint16", "uint32"])
            fields = BitFields.new(kind)
            names = []
            for _ in range(rng.randint(1, 4)):
                name = f"f{count}"
                count += 1
                if rng.random() < 0.5:
                    fields.flag(name)
                else:
                    fields.field(name, 2)
                names.append(name)
            env.fields.add(fields)
            units.append((names, fields.raw, kind))
    if rng.random() < 0.5:
        keys = None
        chosen = list(units)
    else:
        chosen = rng.sample(units, rng.randint(1, len(units)))
        keys = []
        for names, _, _ in chosen:
            some = list(names)
            if len(names) > 1 and rng.random() < 0.5:
                some = some[: rng.randint(1, len(some))]
            keys += [
                x if rng.random() < 0.5 else env.channels.names.identifier(x)
                for x in some
            ]
    result = env.array(keys, byte_order=order)
    kinds = [x[2] for x in chosen]
    if keys is None:
        case.equal(
            result.names, [n for x in chosen for n in x[0]], "env-names"
        )
    else:
        case.equal(
            result.names,
            [env.channels.names.name(k) for k in keys],
            "env-names",
        )
    values = fill(rng, result.array, kinds)
    agree(case, result.array, kinds, values, endian, "env")
    for (_, raw, kind), value in zip(chosen, values):
        case.expect(prims.same(raw.value, value), "env-shared", kind)
    new = [prims.value(rng, k, nan=False) for k in kinds]
    result.array.update(encode(kinds, new, endian))
    for (names, raw, kind), value in zip(chosen, new):
        case.expect(prims.same(raw.value, value), "env-updated", kind)
    # A repeated name is refused.
    name = rng.choice(result.names)
    try:
        env.array([name, name])
    except AssertionError:
        pass
    else:
        case.fail("env-duplicate", name)
    case.event("env_arrays")
    case.distinct(kinds, keys is None, endian)


KINDS = {
    "arrays": (arrays, 9000, 54000),
    "chains": (chains, 1800, 10800),
    "environments": (environments, 1800, 10800),
}
