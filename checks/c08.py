"""C08: protocol definitions copy and re-load without changing the format."""

from copy import copy, deepcopy
from io import BytesIO
import json

from lib import prims, protos

from runtimepy.codec.protocol import Protocol, ProtocolFactory
from runtimepy.enum.registry import EnumRegistry

PROPERTY = "C08"
RULE = (
    "random definitions of scalar, repeated, enum, bit-field, nested and text "
    "parts; write/decode programs over the original, copies, copies of copies "
    "and definitions re-built from saved JSON; non-trivial = distinct part "
    "sequence"
)
REQUIRED = {"definitions": 250, "copies": 250, "json": 150, "writes": 1500,
            "decodes": 300}


class Instance:
    """A protocol instance and its model."""

    def __init__(self, proto, parts, order, identifier, tag):
        self.proto = proto
        self.parts = parts
        self.order = order
        self.identifier = identifier
        self.tag = tag

    def encode(self):
        return b"".join(p.encode() for p in self.parts)

    def check(self, case, where):
        where = f"{self.tag}: {where}"
        want = self.encode()
        case.equal(self.proto.size, len(want), "size", where)
        case.equal(self.proto.id, self.identifier, "identifier", where)
        case.equal(self.proto.array.byte_order, self.order, "order", where)
        with BytesIO() as stream:
            case.equal(
                self.proto.array.to_stream(stream), len(want), "written",
                where,
            )
            case.equal(stream.getvalue(), want, "encoding", where)
        for part in self.parts:
            part.check(case, self.proto, where)

    def write(self, case):
        rng = case.rng
        rng.choice(self.parts).write(rng, self.proto)
        case.event("writes")

    def decode(self, case):
        rng = case.rng
        for part in self.parts:
            part.randomize(rng)
        data = self.encode()
        with BytesIO(data + b"zz") as stream:
            case.equal(
                self.proto.array.from_stream(stream), len(data), "consumed",
                self.tag,
            )
            case.equal(stream.read(), b"zz", "trailing", self.tag)
        case.event("decodes")

    def copy(self):
        """
        A copy: text, nested and bit-field contents may or may not be carried
        over, so all contents are assigned before they're compared.
        """
        return Instance(
            copy(self.proto), deepcopy(self.parts), self.order,
            self.identifier, self.tag + "'",
        )

    def reload(self, case):
        text = (
            json.dumps(self.proto.export_json())
            if case.rng.random() < 0.6
            else self.proto.meta_str()
        )
        if case.rng.random() < 0.3:
            with BytesIO() as stream:
                self.proto.write_meta(stream)
                text = stream.getvalue().decode()
        return Instance(
            Protocol.import_json(json.loads(text)), deepcopy(self.parts),
            self.order, self.identifier, self.tag + "+",
        )


def programs(case, chain):
    """Programs over several instances of one definition."""

    rng = case.rng
    enums = EnumRegistry()
    proto, parts, order, identifier = protos.build(rng, enums, chain)
    instances = [Instance(proto, parts, order, identifier, "orig")]
    instances[0].check(case, "built")
    case.event("definitions")
    for _ in range(rng.randint(4, 16)):
        inst = rng.choice(instances)
        action = rng.choice(
            ["write", "write", "write", "decode", "copy", "json"]
        )
        if action == "write":
            inst.write(case)
        elif action == "decode":
            inst.decode(case)
        elif action == "copy" and len(instances) < 5:
            other = inst.copy()
            case.equal(len(other.encode()) if not chain else
                       other.proto.size, other.proto.size, "copy-size")
            other.decode(case)
            instances.append(other)
            case.event("copies")
        elif action == "json" and len(instances) < 5 and not chain:
            other = inst.reload(case)
            # Saved values: everything that's readable by name.
            for part in other.parts:
                part.check(case, other.proto, "json")
            other.decode(case)
            instances.append(other)
            case.event("json")
        for item in instances:
            item.check(case, action)
    case.distinct(
        [(type(p).__name__, p.size()) for p in parts], order, chain
    )
    case.sample(
        f"{[type(p).__name__ for p in parts]} size={proto.size} "
        f"instances={[i.tag for i in instances]}"
    )


def flat(case):
    """Definitions that can be saved."""
    programs(case, False)


def nested(case):
    """Definitions with nested structures and text."""
    programs(case, True)


def factories(case):
    """Factory instances are independent of each other."""

    rng = case.rng
    enums = EnumRegistry()

    class Factory(ProtocolFactory):
        """A fresh factory."""

        protocol = Protocol(enums)

        @classmethod
        def initialize(cls, protocol):
            protocol.add_field("a", "uint16")
            with protocol.add_bit_fields() as fields:
                fields.flag("b")
                fields.field("c", 4)
            protocol.add_field("d", "double", array_length=2)

    insts = [Factory.instance() for _ in range(rng.randint(2, 5))]
    insts.append(Factory.singleton())
    case.expect(Factory.singleton() is insts[-1], "singleton")
    model = [{"a": 0, "b": False, "c": 0, "d": 0.0} for _ in insts]
    for _ in range(20):
        i = rng.randrange(len(insts))
        name = rng.choice("abcd")
        value = {
            "a": rng.randrange(65536),
            "b": rng.random() < 0.5,
            "c": rng.randrange(16),
            "d": rng.uniform(-5, 5),
        }[name]
        insts[i][name] = value
        model[i][name] = value
        case.event("writes")
        for inst, want in zip(insts, model):
            case.equal(inst.size, 19, "factory-size")
            case.equal({k: inst[k] for k in want}, want, "factory-values")
            case.equal(
                bytes(inst.array),
                prims.model_encode("uint16", want["a"], "big")
                + bytes([int(want["b"]) | want["c"] << 1])
                + prims.model_encode("double", want["d"], "big")
                + prims.model_encode("double", 0.0, "big"),
                "factory-bytes",
            )
    case.distinct(model)


KINDS = {
    "flat": (flat, 1800, 10800),
    "nested": (nested, 1200, 7200),
    "factories": (factories, 180, 1080),
}
