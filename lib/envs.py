"""Random channel environments with an independent model of their state."""

import math

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.enum.registry import EnumRegistry
from runtimepy.primitives.field import BitField, BitFlag
from runtimepy.primitives.field.fields import BitFields
from vcorelib.namespace import Namespace

from . import names, prims

INT_KINDS = list(prims.INTS)
FLOAT_KINDS = ["float", "double"]
FIELD_KINDS = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}


def scale(spec, raw):
    """The engineering value of a raw value."""
    if not spec.scaling:
        return raw
    raw = float(raw)
    return sum(c * raw**i for i, c in enumerate(spec.scaling))


class Spec:
    """What one channel or bit field was declared to be."""

    def __init__(self, name, kind, **kwargs):
        self.name = name
        self.kind = kind
        self.enum = None
        self.scaling = None
        self.commandable = False
        self.default = None
        self.description = None
        self.controls = None
        self.period = None
        self.group = None
        self.index = 0
        self.width = 0
        self.ident = None
        self.__dict__.update(kwargs)

    @property
    def is_field(self):
        return self.group is not None

    @property
    def is_int(self):
        return self.kind in prims.INTS

    @property
    def is_bool(self):
        return self.kind == "bool"

    @property
    def is_float(self):
        return self.kind in prims.FLOATS


class Model:
    """An environment and what it must contain."""

    def __init__(self):
        self.env = None
        self.specs = {}
        self.order = []
        self.raw = {}  # channel -> raw value
        self.words = []  # bit-field groups
        self.late = []
        self.enums = {}  # full name -> {"kind", "items", "ident"}
        self.finalized = False

    def get(self, name):
        spec = self.specs[name]
        if spec.is_field:
            return (self.words[spec.group] >> spec.index) & (
                (1 << spec.width) - 1
            )
        return self.raw[name]

    def put(self, name, raw):
        spec = self.specs[name]
        if spec.is_field:
            mask = ((1 << spec.width) - 1) << spec.index
            self.words[spec.group] = (self.words[spec.group] & ~mask) | (
                int(raw) << spec.index
            )
        else:
            self.raw[name] = raw

    def key(self, rng, name):
        """The name or the id of an item."""
        ident = self.specs[name].ident
        return ident if ident is not None and rng.random() < 0.4 else name

    def value(self, name, resolve=True, scaled=True):
        """What reading the item must return."""
        spec = self.specs[name]
        raw = self.get(name)
        if spec.enum and resolve:
            for text, val in self.enums[spec.enum]["items"].items():
                if val == raw:
                    return text
        if spec.is_field:
            if spec.width == 1 and not (spec.enum and resolve):
                return bool(raw)
            return raw
        return scale(spec, raw) if scaled else raw

    def all(self, resolve=True):
        result = {}
        for name in self.order:
            val = self.value(name, resolve)
            if isinstance(val, float) and math.isnan(val):
                continue
            result[name] = val
        return result


def close(spec, got, want):
    """Reads agree (scaling is evaluated in floating point)."""
    if isinstance(want, str) or isinstance(got, str):
        return got == want
    if spec.scaling:
        if math.isnan(float(want)):
            return math.isnan(float(got))
        return got == want or math.isclose(
            got, want, rel_tol=1e-9, abs_tol=1e-9
        )
    if isinstance(want, bool) != isinstance(got, bool):
        return False
    return prims.same(got, want)


def random_raw(rng, spec, nan=False):
    """A raw value that's representable for a channel."""
    if spec.is_field:
        return prims.random_bits(rng, spec.width) & ((1 << spec.width) - 1)
    if spec.is_bool:
        return rng.random() < 0.5
    if spec.is_float:
        if spec.scaling:
            val = rng.choice([0.0, 1.0, -2.5, 1024.25, 1e-3, 1e6])
            return prims.to_single(val) if spec.kind == "float" else val
        return prims.value(rng, spec.kind, nan=nan)
    if spec.scaling:
        low, high = prims.bounds(spec.kind)
        return max(low, min(high, rng.randint(-(1 << 30), 1 << 30)))
    return prims.value(rng, spec.kind)


SCALINGS = [[0.0, 2.0], [1.0, 2.0], [-5.0, 0.5], [0.0, 0.1],
            [100, -3], [2.0, 3.0], [0.0, 1.0]]


def make_group(rng, model, used, enums):
    """Declare a group of bit fields."""

    kind = rng.choice(list(FIELD_KINDS))
    bits = FIELD_KINDS[kind]
    index, result = 0, []
    group = len(model.words)
    model.words.append(0)
    while index < bits and len(result) < 6:
        if rng.random() < 0.2:
            index += rng.randint(1, 3)
            continue
        width = min(rng.choice([1, 1, 2, 3, 4, 8, 17]), bits - index)
        name = names.channel(rng, used)
        used.add(name)
        spec = Spec(name, kind, group=group, index=index, width=width)
        fitting = [
            x
            for x, y in enums.items()
            if y["kind"] == "int"
            and max(y["items"].values()) < (1 << width)
        ]
        if fitting and rng.random() < 0.4:
            spec.enum = rng.choice(fitting)
        spec.commandable = rng.random() < 0.6
        if rng.random() < 0.4:
            spec.description = "field " + prims.text(rng, 10)
        result.append(spec)
        index += width
        if index >= bits:
            break
    return kind, result


def field_kwargs(spec):
    kwargs = {"commandable": spec.commandable}
    if spec.enum:
        kwargs["enum"] = spec.enum
    if spec.description:
        kwargs["description"] = spec.description
    return kwargs


def add_channel(rng, model, stack, used, scaling, controls, periods):
    """Create a random channel."""

    env = model.env
    kind = rng.choice(INT_KINDS + FLOAT_KINDS + ["bool", "bool", "bool"])
    name = names.channel(rng)
    full = ".".join([x for x in stack if x] + [name])
    if full in used:
        return None
    used.add(full)
    spec = Spec(full, kind)
    kwargs = {}
    if rng.random() < 0.5:
        spec.commandable = kwargs["commandable"] = True
    if rng.random() < 0.4:
        spec.description = kwargs["description"] = (
            "about " + prims.text(rng, 12)
        )
    if kind == "bool" or (spec.is_int and rng.random() < 0.4):
        fits = [
            x
            for x, y in model.enums.items()
            if (y["kind"] == "bool") == (kind == "bool")
        ]
        if fits and rng.random() < 0.5:
            spec.enum = rng.choice(fits)
            kwargs["enum"] = rng.choice(
                [spec.enum, model.enums[spec.enum]["ident"]]
            )
    if scaling and kind != "bool" and not spec.enum and rng.random() < 0.3:
        spec.scaling = list(rng.choice(SCALINGS))
        kwargs["scaling"] = list(spec.scaling)
    if controls and kind != "bool" and rng.random() < 0.2:
        spec.controls = {"slider": {"min": 0, "max": 10, "step": 2}}
        kwargs["controls"] = rng.choice([dict(spec.controls), "period"])
        if kwargs["controls"] == "period" or spec.is_int:
            kwargs["controls"] = dict(spec.controls)
    raw = False if kind == "bool" else 0.0 if spec.is_float else 0
    if rng.random() < 0.3:
        spec.default = random_raw(rng, spec)
        if spec.is_float and math.isinf(spec.default):
            spec.default = 1.5
        kwargs["default"] = raw = spec.default
    if periods and rng.random() < 0.3:
        spec.period = rng.choice([0.001, 0.5, 2.0])
        kwargs["min_period_s"] = spec.period

    # The parent of a name may be on the namespace stack or handed in.
    maker = env.channel
    if rng.random() < 0.6:
        maker = (
            env.bool_channel
            if spec.is_bool
            else env.int_channel if spec.is_int else env.float_channel
        )
        if spec.is_float:
            kwargs.pop("enum", None)
            spec.enum = None
    else:
        spec.generic = True
    if rng.random() < 0.3:
        space = Namespace(*stack) if stack else Namespace()
        result = maker(name, kind, namespace=space, **kwargs)
    else:
        for item in stack:
            env.push_name(item)
        result = maker(name, kind, **kwargs)
        for item in reversed(stack):
            env.pop_name(item)
    chan = result[0] if isinstance(result, tuple) else result
    spec.chan = chan
    spec.ident = chan.id
    model.specs[full] = spec
    model.order.append(full)
    model.raw[full] = raw
    return spec


def build(case, fields=True, scaling=True, controls=True, size=14,
          periods=False, finalize=True):
    """Create a random environment."""

    rng = case.rng
    model = Model()
    used = set()

    registry = EnumRegistry()
    enums = model.enums
    for _ in range(rng.randint(1, 4)):
        name = names.word(rng, used)
        used.add(name)
        kind = rng.choice(["int", "int", "bool"])
        if kind == "bool":
            items = dict(zip(rng.sample(["On", "Off", "up", "Down"], 2),
                             [True, False]))
        else:
            items = names.enum_items(rng)
        enums[name] = {"kind": kind, "items": items}
        enum = registry.enum(name, kind, items=dict(items))
        enums[name]["ident"] = enum.id

    # Bit fields are handed over at construction or added one by one.
    early, late = [], []
    if fields:
        for _ in range(rng.randint(0, 3)):
            kind, specs = make_group(rng, model, used, enums)
            if not specs:
                continue
            if rng.random() < 0.5:
                group = BitFields.new(kind)
                for spec in specs:
                    kwargs = field_kwargs(spec)
                    if spec.width == 1:
                        group.flag(spec.name, index=spec.index, **kwargs)
                    else:
                        group.field(
                            spec.name, spec.width, index=spec.index, **kwargs
                        )
                early.append((group, specs))
            else:
                late.append((prims.make(kind), specs))

    env = ChannelEnvironment(
        enums=registry, fields=[x[0] for x in early] or None
    )
    model.env = env
    for group, specs in early:
        for spec in specs:
            model.specs[spec.name] = spec
            model.order.append(spec.name)
            spec.prim = group.raw

    # An enumeration that's created through the environment.
    space = names.word(rng, used)
    items = names.enum_items(rng)
    with env.names_pushed(space):
        enum = env.enum("Nested", "int", items=dict(items))
    enums[f"{space}.Nested"] = {
        "kind": "int", "items": items, "ident": enum.id,
    }

    stack = []
    for _ in range(rng.randint(3, size)):
        if rng.random() < 0.3:
            if stack and rng.random() < 0.5:
                stack.pop()
            else:
                stack.append(names.word(rng))
        add_channel(rng, model, stack, used, scaling, controls, periods)

    for prim, specs in late:
        for spec in specs:
            kwargs = field_kwargs(spec)
            cls = BitFlag if spec.width == 1 else BitField
            args = (spec.name, prim, spec.index)
            if spec.width != 1:
                args += (spec.width,)
            env.add_field(cls(*args, **kwargs))
            spec.prim = prim
    model.late = [spec for _, specs in late for spec in specs]

    if finalize:
        finish(model)
    model.used = used
    return model


def finish(model):
    """Finalize the environment."""
    model.env.finalize()
    adopt(model)


def adopt(model):
    """Complete the model once the environment is finalized."""
    for spec in model.late:
        model.specs[spec.name] = spec
        model.order.append(spec.name)
    for name, spec in model.specs.items():
        if spec.ident is None:
            spec.ident = model.env.channels.names.identifier(name)
    model.finalized = True


def primitive(model, name):
    """The primitive that stores an item."""
    spec = model.specs[name]
    return spec.prim if spec.is_field else spec.chan.raw


def randomize(case, model, nan=False):
    """Store random raw values."""
    for name, spec in model.specs.items():
        raw = random_raw(case.rng, spec, nan=nan)
        model.put(name, raw)
    sync(model)


def sync(model):
    """Put the model's state into the environment."""
    env = model.env
    for name, spec in model.specs.items():
        if spec.is_field:
            spec.prim.value = model.words[spec.group]
        else:
            env.set(name, model.raw[name], scaled=False)
