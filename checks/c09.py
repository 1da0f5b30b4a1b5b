"""C09: custom types have consistent names, sizes, independent instances."""

from copy import copy
from io import BytesIO

from lib import names, prims

from runtimepy.codec.system import TypeSystem

PROPERTY = "C09"
RULE = (
    "random declaration programs (enums, namespaced types, nested and "
    "repeated members, bit fields, refused duplicates) with instance "
    "programs on copies; non-trivial = distinct system with a nested type"
)
REQUIRED = {"types": 400, "members": 1500, "nested": 200, "refused": 200,
            "lookups": 2000, "instances": 200,
            "partial": 200, "unclear": 50, "whole": 200}


class Leaf:
    """Scalar leaves of a type, in wire order."""

    def __init__(self, kind):
        self.kind = kind


def systems(case):
    """Declaration programs."""

    rng = case.rng
    root = rng.choice([(), ("root",), ("a", "b"), ("Ns",)])
    system = TypeSystem(*root)
    spaces = [(), ("x",), ("x", "y"), ("z",)]
    prefix = "::".join(root)
    types = {}  # (space, name) -> list of scalar kinds
    order = []
    enums = {}  # (space, name) -> (items, primitive)
    sealed = set()

    def full(space, name):
        return "::".join([x for x in root if x] + list(space) + [name])

    def ref(space, name):
        """Name relative to the system's root namespace."""
        return "::".join(list(space) + [name])

    taken = {}
    for _ in range(rng.randint(4, 16)):
        action = rng.choice(["enum", "type", "type", "member", "member",
                             "member", "dup", "bits"])
        space = rng.choice(spaces)
        name = rng.choice(["A", "Bee", "C1", "Dd", "msg", "ABee"])
        if action == "dup" and taken:
            space, name = rng.choice(list(taken))
        key = (space, name)
        if action in ("enum", "type", "dup"):
            kind = action if action != "dup" else rng.choice(["enum", "type"])
            items = names.enum_items(rng)
            prim = rng.choice(["uint8", "uint16", "int32"])
            try:
                if kind == "enum":
                    system.enum(name, dict(items), *space, primitive=prim)
                else:
                    system.register(name, *space)
            except AssertionError:
                case.expect(key in taken, "refused-valid", f"{key}")
                case.event("refused")
            else:
                case.expect(
                    key not in taken, "duplicate-accepted", f"{key}"
                )
                taken[key] = kind
                if kind == "enum":
                    enums[key] = (items, prim)
                else:
                    types[key] = []
                    order.append(key)
                    case.event("types")
        elif action in ("member", "bits") and types:
            target = rng.choice(list(types))
            if target in sealed:
                continue
            if action == "bits":
                proto = system.get_protocol(target[1], *target[0])
                kind = rng.choice(["uint8", "uint16"])
                with proto.add_bit_fields(kind) as fields:
                    fields.flag(f"f{len(types[target])}")
                types[target].append(kind)
                case.event("members")
                continue
            count = rng.randint(1, 3)
            kwargs = {} if count == 1 else {"array_length": count}
            field = f"m{len(types[target])}_{rng.randrange(10**6)}"
            pick = rng.random()
            usable = [
                x for x in types if x != target and types[x]
                and len(types[x]) < 40
            ]
            if pick < 0.35 and usable:
                inner = rng.choice(usable)
                system.add(
                    ref(*target), field, ref(*inner), **kwargs
                )
                sealed.add(inner)
                types[target] += types[inner] * count
                case.event("nested")
            elif pick < 0.6 and enums:
                inner = rng.choice(list(enums))
                # Enums are found by their full name.
                system.add(ref(*target), field, full(*inner), **kwargs)
                types[target] += [enums[inner][1]] * count
            else:
                kind = rng.choice(prims.KINDS)
                system.add(ref(*target), field, kind, **kwargs)
                types[target] += [kind] * count
            case.event("members", count)

        # Every lookup, after every declaration.
        for (space, name), kinds in types.items():
            want = sum(prims.SIZES[k] for k in kinds)
            where = f"{prefix} {space} {name} after {action} {key}"
            case.equal(system.size(name, *space), want, "size", where)
            case.equal(
                system.size(ref(space, name)), want, "size-ref", where
            )
            case.equal(
                system.get_protocol(name, *space).size, want, "protocol-size",
                where,
            )
            case.event("lookups")
        for (space, name), (items, prim) in enums.items():
            case.equal(
                system.size(name, *space), prims.SIZES[prim], "enum-size"
            )
            enum = system.get_enum(name, *space)
            case.equal(dict(enum.ints.asdict()), items, "enum-items")
            case.equal(enum.primitive, prim, "enum-primitive")
            case.event("lookups")
        protocols = [
            system.get_protocol(n, *s) for (s, n) in types
        ]
        case.equal(
            len({id(x) for x in protocols}), len(protocols), "types-distinct"
        )
        for kind in prims.KINDS:
            case.equal(
                system.size(kind), prims.SIZES[kind], "primitive-size"
            )
        missing = rng.choice(["Nope", "uint9", "AA"])
        try:
            system.size(missing)
        except AssertionError:
            pass
        else:
            case.fail("unknown-found", missing)

    # Instances.
    for (space, name), kinds in types.items():
        base = system.get_protocol(name, *space)
        insts = [copy(base) for _ in range(2)]
        insts.append(copy(insts[0]))
        datas = [None] * len(insts)
        for i, inst in enumerate(insts):
            case.event("instances")
            case.equal(
                inst.size, sum(prims.SIZES[k] for k in kinds),
                "instance-size", f"{name} {kinds}",
            )
        base_bytes = BytesIO()
        base.array.to_stream(base_bytes)
        for _ in range(4):
            i = rng.randrange(len(insts))
            values = [prims.value(rng, k, nan=False) for k in kinds]
            data = b"".join(
                prims.model_encode(k, v, "big") for k, v in zip(kinds, values)
            )
            with BytesIO(data) as stream:
                case.equal(
                    insts[i].array.from_stream(stream), len(data),
                    "instance-read",
                )
            datas[i] = data
            for inst, want in zip(insts, datas):
                if want is not None:
                    with BytesIO() as stream:
                        inst.array.to_stream(stream)
                        case.equal(
                            stream.getvalue(), want, "instance-bytes",
                            f"{name} {kinds}",
                        )
            with BytesIO() as stream:
                base.array.to_stream(stream)
                case.equal(
                    stream.getvalue(), base_bytes.getvalue(),
                    "definition-written",
                )
    if sealed:
        case.distinct(root, sorted((k, tuple(v)) for k, v in types.items()))
    case.sample(f"root={root} {[(k, len(v)) for k, v in types.items()]}")


def scalars(case):
    """Members keep their values by name, nested ones included."""

    rng = case.rng
    system = TypeSystem("pkg")
    items = names.enum_items(rng)
    system.enum("Mode", dict(items))
    system.register("Inner")
    inner = []
    for i in range(rng.randint(1, 4)):
        kind = rng.choice(prims.KINDS)
        system.add("Inner", f"i{i}", kind)
        inner.append(kind)
    system.register("Outer")
    outer = []
    seq = [rng.choice(["prim", "inner", "enum"]) for _ in range(5)]
    for i, part in enumerate(seq):
        if part == "prim":
            kind = rng.choice(prims.KINDS)
            system.add("Outer", f"o{i}", kind)
            outer.append((f"o{i}", "prim", kind))
        elif part == "enum":
            system.add("Outer", f"o{i}", "pkg::Mode")
            outer.append((f"o{i}", "enum", "uint8"))
        else:
            system.add("Outer", f"o{i}", "Inner")
            outer.append((f"o{i}", "inner", inner))
            case.event("nested")
        case.event("members")
    inst = copy(system.get_protocol("Outer"))
    case.event("instances")
    want = b""
    for name, part, kind in outer:
        if part == "inner":
            for i, sub in enumerate(kind):
                value = prims.value(rng, sub, nan=False)
                inst.serializables[name][i].value = value
                want += prims.model_encode(sub, value, "big")
        elif part == "enum":
            member, value = rng.choice(list(items.items()))
            inst[name] = member
            case.equal(inst[name], member, "member-enum")
            want += prims.model_encode(kind, value, "big")
        else:
            value = prims.value(rng, kind, nan=False)
            inst[name] = value
            case.expect(prims.same(inst[name], value), "member-value", kind)
            want += prims.model_encode(kind, value, "big")
    with BytesIO() as stream:
        inst.array.to_stream(stream)
        case.equal(stream.getvalue(), want, "outer-bytes", f"{outer}")
    case.equal(system.size("Outer"), len(want), "outer-size")
    case.distinct(outer)


def partial(case):
    """Lookups by part of a name."""

    rng = case.rng
    root = rng.choice([(), ("root",), ("a", "b")])
    system = TypeSystem(*root)
    spaces = [(), ("x",), ("x", "y"), ("z",)]
    builtin = list(prims.KINDS) + ["runtimepy::ByteOrder"]
    custom, enums = {}, {}

    def full(space, name):
        return "::".join(list(root) + list(space) + [name])

    pool = ["Pose", "PoseStamped", "Twist", "TwistPose", "Imu", "GpsImu",
            "Mode", "ModeWide"]
    for _ in range(rng.randint(3, 9)):
        space, name = rng.choice(spaces), rng.choice(pool)
        key = full(space, name)
        if key in custom or key in enums:
            continue
        if name.startswith("Mode"):
            items = names.enum_items(rng)
            system.enum(name, dict(items), *space)
            enums[key] = (items, system.get_enum(name, *space))
        else:
            kinds = [rng.choice(prims.KINDS)
                     for _ in range(rng.randint(1, 4))]
            proto = system.register(name, *space)
            for i, kind in enumerate(kinds):
                proto.add_field(f"m{i}", kind=kind)
            custom[key] = (kinds, proto)

    def model(part, space):
        """The one name a part of it stands for (or none)."""

        known = builtin + list(custom) + list(enums)
        want = full(space, part)
        if want in known:
            return want
        if part in builtin:
            return part
        start = "".join(x + "::" for x in list(root) + list(space))
        found = [x for x in builtin if part in x]
        found += [x for x in list(custom) + list(enums)
                  if x.startswith(start) and part in x[len(start):]]
        size = min((len(x) for x in found), default=0)
        found = [x for x in found if len(x) == size]
        return found[0] if len(found) == 1 else None

    parts = ["Pose", "Stamped", "Imu", "Gps", "Mod", "Wide", "Twist", "Tw",
             "Absent", "ByteOrd", "bool", "uint", "int6", "y::P", "x::",
             "z::Im"]
    for _ in range(rng.randint(6, 20)):
        part, space = rng.choice(parts), rng.choice(spaces)
        want = model(part, space)
        where = f"{part} in {space} of {root}: {sorted(custom) + sorted(enums)}"
        call = rng.choice(["size", "protocol", "enum"])
        if want is None:
            try:
                system.size(part, *space, exact=False)
            except AssertionError:
                case.event("unclear")
            else:
                case.fail("unclear-found", where)
        elif want in custom:
            kinds, proto = custom[want]
            if call == "protocol":
                case.expect(
                    system.get_protocol(part, *space, exact=False) is proto,
                    "partial-protocol", where,
                )
            case.equal(
                system.size(part, *space, exact=False),
                sum(prims.SIZES[x] for x in kinds), "partial-size", where,
            )
            case.event("partial")
        elif want in enums:
            case.expect(
                system.get_enum(part, *space, exact=False) is enums[want][1],
                "partial-enum", where,
            )
            case.event("partial")
        else:
            case.equal(
                system.size(part, *space, exact=False),
                prims.SIZES.get(want, 1), "partial-builtin", where,
            )
            case.event("partial")
        case.distinct(root, sorted(custom), sorted(enums), part, space)

        # Whole names only, unless asked for.
        known = full(space, part)
        if known not in custom and known not in enums and (
            part not in builtin
        ):
            try:
                system.size(part, *space)
            except AssertionError:
                case.event("whole")
            else:
                case.fail("part-found", where)

        # The current namespace is still the same.
        for key, (kinds, proto) in custom.items():
            name = key[len("".join(x + "::" for x in root)):]
            case.expect(
                system.get_protocol(name) is proto, "after-lookup", where
            )

    # Members by part of a type's name.
    system.register("Holder")
    size = 0
    for i in range(rng.randint(1, 3)):
        part = rng.choice(["Stamped", "Imu", "Twist", "Wide", "bool"])
        want = model(part, ())
        where = f"{part}: {sorted(custom) + sorted(enums)}"
        try:
            system.add("Holder", f"h{i}", part, exact=False)
        except AssertionError:
            case.expect(want is None, "partial-member", where)
        else:
            case.expect(want is not None, "unclear-member", where)
            size += (
                sum(prims.SIZES[x] for x in custom[want][0])
                if want in custom else prims.SIZES.get(want, 1)
            )
            case.event("partial")
    case.equal(system.size("Holder"), size, "holder-size")


KINDS = {
    "systems": (systems, 2000, 12000),
    "scalars": (scalars, 1500, 9000),
    "partial": (partial, 600, 4000),
}
