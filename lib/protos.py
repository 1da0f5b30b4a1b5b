"""Generated message-protocol definitions together with their wire model."""

from lib import names, prims

from runtimepy.codec.protocol import Protocol
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.serializable import FixedChunk, PrefixedChunk

BITS = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}
PREFIXES = ["uint8", "uint16", "uint32"]


class Scalars:
    """A (possibly repeated) scalar or enum field."""

    def __init__(self, name, kind, count, endian, enum=None, items=None):
        self.name = name
        self.kind = kind
        self.count = count
        self.endian = endian
        self.enum = enum
        self.items = items
        self.reset()

    def reset(self):
        self.values = [prims.make(self.kind).value] * self.count

    def size(self):
        return prims.SIZES[self.kind] * self.count

    def randomize(self, rng):
        self.values = [
            self.pick(rng) for _ in range(self.count)
        ]

    def pick(self, rng):
        if self.items and rng.random() < 0.8:
            return rng.choice(list(self.items.values()))
        return prims.value(rng, self.kind, nan=False)

    def encode(self):
        return b"".join(
            prims.model_encode(self.kind, v, self.endian) for v in self.values
        )

    def write(self, rng, proto):
        """Write (the first element) by name."""
        value = self.pick(rng)
        self.values = [value] + self.values[1:]
        if self.items and value in self.items.values() and rng.random() < 0.6:
            value = {v: k for k, v in self.items.items()}[value]
        proto[self.name] = value

    def check(self, case, proto, where):
        raw = self.values[0]
        case.expect(
            prims.same(proto.value(self.name, resolve_enum=False), raw),
            "value-raw",
            f"{where} {self.name} {raw}",
        )
        want = raw
        if self.items:
            want = {v: k for k, v in self.items.items()}.get(raw, raw)
        case.expect(
            prims.same(proto[self.name], want)
            and prims.same(proto.value(self.name), want),
            "value",
            f"{where} {self.name} got={proto[self.name]!r} want={want!r}",
        )


class Bits:
    """A group of bit fields."""

    def __init__(self, kind, layout, endian):
        self.kind = kind
        self.layout = layout  # name -> (index, width, enum, items)
        self.endian = endian
        self.reset()

    def reset(self):
        self.word = 0

    def size(self):
        return prims.SIZES[self.kind]

    def mask(self):
        result = 0
        for index, width, _, _ in self.layout.values():
            result |= ((1 << width) - 1) << index
        return result

    def randomize(self, rng):
        self.word = prims.random_bits(rng, BITS[self.kind]) & self.mask()

    def encode(self):
        return prims.model_encode(self.kind, self.word, self.endian)

    def write(self, rng, proto):
        if not self.layout:
            return
        name = rng.choice(list(self.layout))
        index, width, _, items = self.layout[name]
        mask = (1 << width) - 1
        value = prims.random_bits(rng, width) & mask
        raw = value
        if items and rng.random() < 0.7:
            member, raw = rng.choice(list(items.items()))
            value = member
        elif width == 1:
            value = bool(value)
        self.word = (self.word & ~(mask << index)) | (raw << index)
        proto[name] = value

    def check(self, case, proto, where):
        for name, (index, width, _, items) in self.layout.items():
            raw = (self.word >> index) & ((1 << width) - 1)
            case.equal(
                int(proto.value(name, resolve_enum=False)), raw,
                "bits-raw", where,
            )
            want = raw
            if items:
                want = {v: k for k, v in items.items()}.get(raw, raw)
            elif width == 1:
                want = bool(raw)
            case.equal(proto[name], want, "bits", f"{where} {name}")


class Nested:
    """A nested structure of scalar fields (an array), possibly repeated."""

    def __init__(self, name, kinds, count, endian):
        self.name = name
        self.kinds = kinds
        self.count = count
        self.endian = endian
        self.reset()

    def reset(self):
        self.values = [
            [prims.make(k).value for k in self.kinds]
            for _ in range(self.count)
        ]

    def size(self):
        return sum(prims.SIZES[k] for k in self.kinds) * self.count

    def randomize(self, rng):
        self.values = [
            [prims.value(rng, k, nan=False) for k in self.kinds]
            for _ in range(self.count)
        ]

    def encode(self):
        return b"".join(
            prims.model_encode(k, v, self.endian)
            for row in self.values
            for k, v in zip(self.kinds, row)
        )

    def write(self, rng, proto):
        item = proto.serializables[self.name]
        i = rng.randrange(len(self.kinds))
        value = prims.value(rng, self.kinds[i], nan=False)
        self.values[0] = list(self.values[0])
        self.values[0][i] = value
        item[i].value = value

    def check(self, case, proto, where):
        item = proto.serializables[self.name]
        for i, value in enumerate(self.values[0]):
            case.expect(
                prims.same(item[i].value, value), "nested", f"{where} {i}"
            )


class Text:
    """Fixed or prefixed text, possibly repeated."""

    def __init__(self, name, prefix, size, count, endian):
        self.name = name
        self.prefix = prefix
        self.width = size
        self.count = count
        self.endian = endian
        self.reset()

    def reset(self):
        self.values = [
            b"" if self.prefix else b"." * self.width
        ] * self.count

    def size(self):
        return len(self.encode())

    def randomize(self, rng):
        self.values = [self.pick(rng) for _ in range(self.count)]

    def pick(self, rng):
        if self.prefix:
            return prims.text(rng, 30).encode()
        return bytes(rng.choice(b"abc XYZ") for _ in range(self.width))

    def encode(self):
        result = b""
        for value in self.values:
            if self.prefix:
                result += prims.model_encode(
                    self.prefix, len(value), self.endian
                )
            result += value
        return result

    def write(self, rng, proto):
        self.values = [self.pick(rng)] + self.values[1:]
        proto[self.name] = self.values[0].decode()

    def check(self, case, proto, where):
        case.equal(
            proto[self.name], self.values[0].decode(), "text", where
        )


def build(rng, enums, allow_chain=True):
    """Create a random protocol and its model."""

    order, endian = rng.choice(list(prims.orders().items()))
    identifier = rng.randint(1, 100)
    proto = Protocol(enums, identifier=identifier, byte_order=order)
    parts = []
    used = set()
    members = {}
    for _ in range(rng.randint(1, 7)):
        choices = ["scalar", "scalar", "repeat", "bits", "enum"]
        if allow_chain:
            choices += ["nested", "text"]
        choice = rng.choice(choices)
        name = names.word(rng, used)
        used.add(name)
        count = 1
        if choice in ("repeat", "nested", "text") and rng.random() < 0.6:
            count = rng.randint(1, 4)
        kwargs = {"array_length": count} if count > 1 else {}
        if choice in ("scalar", "repeat"):
            kind = rng.choice(prims.KINDS)
            proto.add_field(name, kind, **kwargs)
            parts.append(Scalars(name, kind, count, endian))
        elif choice == "enum":
            enum = names.word(rng, set(members) | {"ByteOrder"})
            prim = rng.choice(["uint8", "uint16", "int32"])
            items = names.enum_items(rng)
            runtime = enums.enum(enum, "int", dict(items), primitive=prim)
            assert runtime is not None
            members[enum] = items
            key = rng.choice([enum, runtime.id])
            if rng.random() < 0.3:
                prim = "uint32"
                proto.add_field(name, prim, enum=key)
            else:
                proto.add_field(name, enum=key)
            parts.append(Scalars(name, prim, 1, endian, enum, items))
        elif choice == "bits":
            kind = rng.choice(list(BITS))
            layout = {}
            with proto.add_bit_fields(kind) as fields:
                index = 0
                for _ in range(rng.randint(1, 5)):
                    width = rng.choice([1, 1, 2, 3, 4])
                    if index + width > BITS[kind]:
                        break
                    field = names.word(rng, used)
                    used.add(field)
                    enum, items = None, None
                    if width > 1 and members and rng.random() < 0.4:
                        enum = rng.choice(list(members))
                        items = {
                            k: v
                            for k, v in members[enum].items()
                            if v < (1 << width)
                        }
                        if len(items) != len(members[enum]):
                            enum, items = None, None
                    if width == 1:
                        fields.flag(field)
                    else:
                        fields.field(field, width, enum=enum)
                    layout[field] = (index, width, enum, items)
                    index += width
            parts.append(Bits(kind, layout, endian))
        elif choice == "nested":
            sub_order, sub_endian = rng.choice(list(prims.orders().items()))
            kinds = [rng.choice(prims.KINDS) for _ in range(rng.randint(1, 3))]
            proto.add_serializable(
                name,
                PrimitiveArray(
                    *[prims.make(k) for k in kinds], byte_order=sub_order
                ),
                **kwargs,
            )
            parts.append(Nested(name, kinds, count, sub_endian))
        else:
            prefix = rng.choice(PREFIXES + [None])
            size = rng.randint(1, 6)
            if prefix is None:
                item = FixedChunk(b"." * size)
                sub_endian = "big"
            else:
                sub_order, sub_endian = rng.choice(
                    list(prims.orders().items())
                )
                item = PrefixedChunk(prims.make(prefix), byte_order=sub_order)
            proto.add_field(name, serializable=item, **kwargs)
            parts.append(Text(name, prefix, size, count, sub_endian))
    return proto, parts, order, identifier
