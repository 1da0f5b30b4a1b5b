"""C06: bit fields are isolated."""

from copy import copy
import json

from lib import names, prims

from runtimepy.enum.registry import EnumRegistry
from runtimepy.primitives.field.fields import BitFields
from runtimepy.primitives.field.manager import (
    BitFieldsManager,
    fields_from_file,
)
from runtimepy.registry.name import NameRegistry

PROPERTY = "C06"
RULE = (
    "random layouts (kinds, widths, explicit indices, padding, enums, several "
    "groups) driven by random writes through six paths against a shadow word; "
    "non-trivial = distinct layout with at least two fields"
)
REQUIRED = {"writes": 3000, "oversized": 300, "refused": 100, "reloads": 100,
            "enum_writes": 200}

BITS = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}


class Group:
    """A group of fields with its model."""

    def __init__(self, case, enums, used):
        rng = case.rng
        self.kind = rng.choice(list(BITS))
        self.bits = BITS[self.kind]
        self.fields = BitFields.new(self.kind)
        self.word = 0
        self.specs = {}  # name -> (index, width, enum, desc, commandable)
        self.pads = []
        claimed = set()
        current = 0
        for _ in range(rng.randint(1, 10)):
            index = None
            if rng.random() < 0.35:
                index = rng.randrange(self.bits)
            kind = rng.choice(["flag", "field", "field", "pad"])
            width = 1
            if kind == "field":
                width = rng.choice([2, 3, 4, 5, 7, 8, 13, 31, 33, self.bits])
            elif kind == "pad":
                width = rng.randint(1, 4)
            start = current if index is None else index
            span = set(range(start, start + width))
            fits = max(span) < self.bits and not span & claimed
            name = names.channel(rng, used)
            kwargs = {}
            enum = None
            if kind != "pad":
                if rng.random() < 0.3:
                    enum = rng.choice(list(enums))
                    kwargs["enum"] = enum
                if rng.random() < 0.4:
                    kwargs["description"] = prims.text(rng, 12) + "."
                if rng.random() < 0.4:
                    kwargs["commandable"] = True
            if kind == "field" and rng.random() < 0.1 and self.specs:
                name = None
            try:
                if kind == "pad":
                    got = self.fields.pad(width, index=index)
                elif name is None:
                    # A name that's taken is refused.
                    taken = rng.choice(list(self.specs))
                    self.fields.flag(taken)
                    case.fail("duplicate-accepted", taken)
                elif kind == "flag":
                    got = self.fields.flag(name, index=index, **kwargs).index
                else:
                    got = self.fields.field(
                        name, width, index=index, **kwargs
                    ).index
            except AssertionError:
                case.expect(
                    name is None or not fits,
                    "refused-valid",
                    f"{kind} {start}+{width} of {self.bits} "
                    f"claimed={sorted(claimed)}",
                )
                case.event("refused")
                continue
            case.expect(
                fits,
                "overlap-accepted",
                f"{kind} {start}+{width} of {self.bits} {sorted(claimed)}",
            )
            case.equal(got, start, "index")
            claimed |= span
            if start >= current:
                current = start + width
            if kind != "pad":
                used.add(name)
                self.specs[name] = (
                    start,
                    width,
                    enum,
                    kwargs.get("description"),
                    bool(kwargs.get("commandable")),
                )
            else:
                self.pads.append((start, width))

    def value(self, name):
        index, width = self.specs[name][:2]
        return (self.word >> index) & ((1 << width) - 1)

    def store(self, name, value):
        index, width = self.specs[name][:2]
        mask = ((1 << width) - 1) << index
        self.word = (self.word & ~mask) | ((value << index) & mask)


def same_definition(case, fields, group, where):
    """Names, positions, widths, descriptions and enums."""
    case.equal(list(fields.names), list(group.specs), "names", where)
    case.equal(str(fields.raw.kind), group.kind, "kind", where)
    for name, (index, width, enum, desc, cmd) in group.specs.items():
        field = fields[name]
        case.equal(
            (field.name, field.index, field.width, field.commandable),
            (name, index, width, cmd),
            "definition",
            where,
        )
        case.equal(field.description, desc, "description", where)
        case.equal(
            field.enum if field.is_enum else None, enum, "enum", where
        )
        case.equal(fields[index].name, name, "by-index", where)
        want = "".join(
            "^" if index <= i < index + width else "-"
            for i in range(group.bits)
        )
        case.equal(field.where_str(), want, "where", where)


def verify(case, fields, group, where, word=True):
    """The whole word (unless re-loaded: only fields are saved) and fields."""
    if word:
        case.equal(fields.raw.value, group.word, "word", where)
    for name in group.specs:
        case.equal(fields[name](), group.value(name), "field", where)


def layouts(case):
    """Random layouts and write histories."""

    rng = case.rng
    enums = EnumRegistry()
    members = {}
    for _ in range(rng.randint(1, 3)):
        name = names.word(rng, members)
        members[name] = names.enum_items(rng, 2)
        assert enums.enum(name, "int", dict(members[name]))
    flag_enum = names.word(rng, members)
    members[flag_enum] = {"open": 1, "shut": 0}
    enums.enum(flag_enum, "bool", {"open": True, "shut": False})

    used = set()
    groups = [
        Group(case, list(members), used) for _ in range(rng.randint(1, 3))
    ]
    registry = NameRegistry()
    manager = BitFieldsManager(registry, enums)
    for group in groups:
        manager.add(group.fields)
        same_definition(case, group.fields, group, "built")
        # No more bits can be claimed.
        try:
            group.fields.flag("late")
        except AssertionError:
            case.event("refused")
        else:
            case.fail("late-claim", "flag added after finalize")
    allnames = [(g, n) for g in groups for n in g.specs]
    if not allnames:
        return

    for _ in range(rng.randint(5, 25)):
        group, name = rng.choice(allnames)
        index, width, enum = group.specs[name][:3]
        field = group.fields[name]
        path = rng.choice(
            ["call", "index", "manager", "ident", "invert", "flag", "raw",
             "enum", "update", "text"]
        )
        value = prims.random_bits(rng, width)
        if rng.random() < 0.2:
            value = rng.choice([-1, 1 << width, (1 << width) + 1, -5,
                                value + (1 << 70)])
            case.event("oversized")
        if path == "call":
            case.equal(
                field(value), value & ((1 << width) - 1), "call-result"
            )
        elif path == "index":
            group.fields[index](value)
        elif path == "manager":
            manager.set(name, value)
        elif path == "ident":
            manager.set(registry.identifier(name), value)
        elif path == "invert":
            value = ~group.value(name)
            case.equal(
                field.invert(), value & ((1 << width) - 1), "invert-result"
            )
        elif path == "flag":
            if width != 1:
                try:
                    manager.get_flag(name)
                except KeyError:
                    continue
                case.fail("flag-of-field", name)
            flag = manager.get_flag(name)
            mode = rng.randrange(4)
            if mode == 0:
                flag.set()
                value = 1
            elif mode == 1:
                flag.clear()
                value = 0
            elif mode == 2:
                value = rng.randrange(2)
                flag.set(bool(value))
            else:
                value = rng.randrange(2)
                manager.set(name, bool(value))
            case.equal(flag.get(), bool(value), "flag-get")
        elif path == "raw":
            group.word = prims.random_bits(rng, group.bits)
            group.fields.raw.value = group.word
            value = None
        elif path == "update":
            group.word = prims.random_bits(rng, group.bits)
            group.fields.raw.update(
                prims.model_encode(group.kind, group.word, "big")
            )
            value = None
        elif path == "text":
            if enum is not None:
                continue
            value = rng.randrange(2)
            manager.set(name, rng.choice([["false", "False"],
                                          ["true", "True"]][value]))
        elif path == "enum":
            if enum is None:
                continue
            case.event("enum_writes")
            if rng.random() < 0.25:
                try:
                    manager.set(name, "no_such_member")
                except KeyError:
                    case.event("refused")
                    value = None
                else:
                    case.fail("bad-member-accepted", name)
            else:
                member, value = rng.choice(list(members[enum].items()))
                manager.set(name, member)
        if value is not None:
            group.store(name, value)
            case.event("writes")
        for item in groups:
            verify(case, item.fields, item, f"{path} {name}={value}")
        for item, other in allnames:
            raw = item.value(other)
            kind = item.specs[other][2]
            got = manager.get(other, resolve_enum=False)
            case.equal(int(got), raw, "manager-get")
            got = manager.get(registry.identifier(other))
            want = raw
            if kind is not None:
                text = {v: k for k, v in members[kind].items()}.get(raw)
                if text is not None:
                    want = text
            elif item.specs[other][1] == 1:
                want = bool(raw)
            case.equal(got, want, "manager-value", f"{other} {kind}")

    if len(allnames) > 1:
        case.distinct([list(g.specs.values()) for g in groups])
    case.sample(f"{groups[0].kind} {list(groups[0].specs.items())[:3]}")

    # Saved and re-loaded definitions.
    for group in groups:
        mode = rng.choice(["create", "copy", "file"])
        if mode == "create":
            other = BitFields.create(
                json.loads(json.dumps(group.fields.asdict()))
            )
        elif mode == "copy":
            other = copy(group.fields)
        else:
            path = case.scratch / f"f.{rng.choice(['json', 'yaml'])}"
            group.fields.encode(path)
            other = BitFields.decode(path)
        same_definition(case, other, group, mode)
        verify(case, other, group, mode, word=False)
        before = group.word
        other.raw.value = group.word ^ 1
        case.equal(group.fields.raw.value, before, "copy-aliased")
        case.event("reloads")

    mode = rng.choice(["manager", "json", "file"])
    if mode == "manager":
        others = copy(manager).fields
    elif mode == "json":
        loaded = BitFieldsManager.import_json(
            json.loads(json.dumps(manager.export_json()))
        )
        others = loaded.fields
        case.equal(loaded.values(), manager.values(), "loaded-values")
        for _, name in allnames:
            case.equal(
                loaded.registry.identifier(name),
                registry.identifier(name),
                "loaded-id",
            )
    else:
        path = case.scratch / "all.json"
        manager.encode(path)
        others = list(fields_from_file(path))
    case.equal(len(others), len(groups), "group-count", mode)
    for other, group in zip(others, groups):
        same_definition(case, other, group, mode)
        verify(case, other, group, mode, word=False)
        case.event("reloads")


KINDS = {"layouts": (layouts, 2000, 12000)}
