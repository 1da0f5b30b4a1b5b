"""C07: names and integer ids stay one-to-one."""

import json

from lib import names

from runtimepy.channel.registry import ChannelNameRegistry, ChannelRegistry
from runtimepy.enum import RuntimeEnum
from runtimepy.enum.registry import EnumRegistry
from runtimepy.registry.bool import BooleanRegistry
from runtimepy.registry.name import NameRegistry

PROPERTY = "C07"
RULE = (
    "registration histories mixing automatic and explicit identifiers, "
    "duplicates, malformed names and failing definitions on name, channel and "
    "enum registries; the complete two-way mapping is compared with a model "
    "after every operation; non-trivial = distinct history with a refusal"
)
REQUIRED = {"accepted": 2000, "refused": 1500, "reloads": 200,
            "channel_ops": 500, "bool_ops": 200}


def agree(case, reg, model, gone, where):
    """The whole mapping of a name registry against the model."""

    case.equal(list(reg.names), list(model), "names-order", where)
    case.equal(
        list(reg.registered_order), list(model), "registered-order", where
    )
    case.equal(dict(reg.asdict()), model, "asdict", where)
    for name, ident in model.items():
        case.equal(reg.identifier(name), ident, "id-of-name", where)
        case.equal(reg.identifier(ident), ident, "id-of-id", where)
        case.equal(reg.name(ident), name, "name-of-id", where)
        case.equal(reg.name(name), name, "name-of-name", where)
    taken = set(model.values())
    for item in gone:
        if isinstance(item, str) and item not in model:
            case.equal(reg.identifier(item), None, "phantom-name", where)
            case.equal(reg.name(item), None, "phantom-name", where)
        elif not isinstance(item, str) and item not in taken:
            case.equal(reg.identifier(item), None, "phantom-id", where)
            case.equal(reg.name(item), None, "phantom-id", where)


def pick_id(rng, model, limit=2**31):
    """An explicit identifier, sometimes one that's taken."""
    if model and rng.random() < 0.4:
        return rng.choice(list(model.values()))
    top = max(model.values(), default=0)
    return rng.choice([top + 1, top + 2, rng.randint(1, 30), 1000,
                       rng.randint(1, limit)])


def registries(case):
    """Name registries."""

    rng = case.rng
    cls, fresh, pattern = rng.choice(
        [
            (NameRegistry, names.general, names.DEFAULT),
            (ChannelNameRegistry, names.channel, names.CHANNEL),
        ]
    )
    model = {}
    if rng.random() < 0.5:
        for _ in range(rng.randrange(5)):
            ident = pick_id(rng, {})
            if ident not in model.values():
                model[fresh(rng, model)] = ident
        if rng.random() < 0.5:
            reg = cls(reverse=dict(model))
        else:
            reg = cls(mapping={v: k for k, v in model.items()})
    else:
        reg = cls()
    gone = set()
    refusals = 0
    ops = []
    agree(case, reg, model, gone, "initial")
    for _ in range(rng.randint(4, 30)):
        action = rng.choice(["auto", "auto", "explicit", "dup", "bad", "load",
                             "load_rev", "search"])
        name = fresh(rng, model)
        ident = pick_id(rng, model)
        ok = ident not in model.values()
        got = None
        try:
            if action == "auto":
                got = reg.register_name(name)
                case.expect(
                    isinstance(got, int)
                    and got not in model.values()
                    and got >= 1,
                    "auto-id",
                    f"{got} taken={sorted(model.values())}",
                )
                model[name] = got
                ident, ok = got, True
            elif action == "explicit":
                got = reg.register_name(name, identifier=ident)
                if got is not None:
                    case.equal(got, ident, "explicit-id")
            elif action == "dup" and model:
                name = rng.choice(list(model))
                if rng.random() < 0.5:
                    case.equal(
                        reg.register_name(name), model[name], "dup-id"
                    )
                    ok = None
                else:
                    ok = ident == model[name]
                    got = reg.register_name(name, identifier=ident)
            elif action == "bad":
                name = names.bad(rng)
                case.expect(pattern.fullmatch(name) is None, "harness")
                ok = False
                got = reg.register_name(
                    name, identifier=rng.choice([None, 10**6 + 7])
                )
            elif action == "load":
                if rng.random() < 0.3 and model:
                    name = rng.choice(list(model))
                    ok = ident == model[name]
                reg.load_key_to_name({ident: name})
                got = ident
            elif action == "load_rev":
                if rng.random() < 0.3 and model:
                    name = rng.choice(list(model))
                    ok = ident == model[name]
                reg.load_name_to_key({name: ident})
                got = ident
            else:
                case.equal(list(reg.search(".*")), list(model), "search")
                if model:
                    one = rng.choice(list(model))
                    case.equal(
                        list(reg.search(one, exact=True)), [one],
                        "search-exact",
                    )
                continue
        except AssertionError:
            got = None
        ops.append((action, ok))
        if action == "dup" and ok is None or (action == "dup" and not model):
            pass
        elif ok:
            case.expect(
                got is not None, "refused-valid", f"{action} {name}={ident}"
            )
            model[name] = ident
            case.event("accepted")
        else:
            case.expect(
                got is None, "accepted-invalid", f"{action} {name!r}={ident}"
            )
            case.event("refused")
            refusals += 1
            gone.update([name, ident])
        gone.add(name)
        agree(case, reg, model, gone, f"{action} {name}={ident}")
    if refusals:
        case.distinct(cls.__name__, ops)
    case.sample(f"{cls.__name__} {ops[:10]} -> {len(model)} names")

    # Saved and loaded.
    data = json.loads(json.dumps(reg.asdict()))
    other = cls(reverse=data)
    agree(case, other, model, gone, "reload")
    fresh_id = other.register_name(fresh(rng, model))
    case.expect(fresh_id not in model.values(), "reload-auto-id")
    agree(case, reg, model, gone, "reload-independent")
    case.event("reloads")


def enums(case):
    """Integer and boolean enumerations in an enum registry."""

    rng = case.rng
    reg = EnumRegistry()
    model = {}
    details = {}
    gone = set()
    for _ in range(rng.randint(2, 10)):
        action = rng.choice(["int", "int", "bool", "dup", "bad", "broken"])
        if action in ("int", "bool"):
            name = names.general(rng, model)
            if action == "int":
                items = names.enum_items(rng)
            else:
                items = rng.choice(
                    [{}, {"on": True}, {"on": True, "off": False}]
                )
            enum = reg.enum(name, action, dict(items))
            case.expect(enum is not None, "enum-refused", name)
            case.expect(
                enum.id not in model.values(), "enum-id", f"{enum.id}"
            )
            model[name] = enum.id
            details[name] = (action, dict(items))
            case.event("accepted")
        elif action == "dup" and model:
            case.equal(
                reg.enum(rng.choice(list(model)), "int", {"z": 3}), None,
                "enum-dup",
            )
            case.event("refused")
        elif action == "bad":
            name = names.bad(rng)
            case.equal(reg.enum(name, "int", {"z": 3}), None, "enum-bad")
            gone.add(name)
            case.event("refused")
        elif action == "broken":
            name = names.general(rng, model)
            try:
                reg.enum(name, "neither")
            except Exception:  # pylint: disable=broad-exception-caught
                gone.add(name)
                case.event("refused")
            else:
                case.fail("enum-broken", name)
        agree(case, reg.names, model, gone, action)
        case.equal(list(reg.items), list(model), "enum-items", action)

    for name, (kind, items) in details.items():
        enum = reg[name]
        case.expect(reg[model[name]] is enum, "enum-by-id")
        for _ in range(rng.randrange(8)):
            fresh = names.general(rng, items)
            if kind == "int":
                if rng.random() < 0.3:
                    bad = names.bad(rng)
                    case.equal(enum.register_int(bad), None, "member-bad")
                    case.event("refused")
                else:
                    got = enum.register_int(fresh)
                    case.expect(
                        got is not None and got not in items.values(),
                        "member-id",
                        f"{got} {items}",
                    )
                    items[fresh] = got
                    case.event("accepted")
            else:
                case.event("bool_ops")
                value = rng.random() < 0.5
                taken = rng.random() < 0.3 and items
                if taken:
                    fresh = rng.choice(list(items))
                ok = not taken and value not in items.values()
                case.equal(
                    enum.register_bool(fresh, value), ok, "member-bool"
                )
                case.event("accepted" if ok else "refused")
                if ok:
                    items[fresh] = value
        back = {v: k for k, v in items.items()}
        copies = [
            enum,
            RuntimeEnum.create(json.loads(json.dumps(enum.asdict()))),
            EnumRegistry.create(json.loads(json.dumps(reg.asdict())))[name],
        ]
        case.event("reloads")
        for one in copies:
            case.equal(one.id, model[name], "member-enum-id")
            mapping = one.ints if kind == "int" else one.bools
            agree(case, mapping, items, set(), f"members of {name}")
            for member, value in items.items():
                case.equal(one.get_str(value), member, "get-str")
                case.equal(one.as_str(member), member, "as-str")
                case.equal(one.get_int(member), int(value), "get-int")
                if kind == "int":
                    case.equal(one.get_int(value), value, "get-int-id")
                    case.equal(
                        one.get_int(str(value)), value, "get-int-text"
                    )
                else:
                    case.equal(one.get_bool(member), value, "get-bool")
            if kind == "int":
                unknown = max(back, default=0) + 1
                case.equal(one.as_str(unknown), None, "unknown-value")
                case.equal(one.as_int("nope!"), None, "unknown-name")
                for func, arg in (
                    (one.get_str, unknown),
                    (one.get_int, "nope!"),
                ):
                    try:
                        func(arg)
                    except KeyError:
                        continue
                    case.fail("unknown-accepted", f"{arg}")
    case.distinct(details)


def channels(case):
    """Channel registries, including failing channel definitions."""

    rng = case.rng
    reg = ChannelRegistry()
    model = {}
    gone = set()
    ops = []
    for _ in range(rng.randint(4, 25)):
        case.event("channel_ops")
        action = rng.choice(["new", "new", "id", "dup", "bad", "broken"])
        name = names.channel(rng, model)
        if action == "new":
            chan = reg.channel(name, rng.choice(["bool", "int8", "double"]))
            case.expect(chan is not None, "channel-refused", name)
            case.expect(
                chan.id not in model.values(), "channel-id", f"{chan.id}"
            )
            model[name] = chan.id
            case.event("accepted")
        elif action == "id":
            ident = pick_id(rng, model, 60000)
            chan = reg.channel(name, "uint16", id=ident)
            ok = ident not in model.values()
            case.equal(chan is not None, ok, "channel-explicit", f"{ident}")
            if ok:
                case.equal(chan.id, ident, "channel-explicit-id")
                model[name] = ident
                case.event("accepted")
            else:
                gone.add(name)
                case.event("refused")
        elif action == "dup" and model:
            name = rng.choice(list(model))
            try:
                got = reg.channel(
                    name,
                    "float",
                    **(
                        {"id": pick_id(rng, model, 60000)}
                        if rng.random() < 0.5
                        else {}
                    ),
                )
            except AssertionError:
                got = None
            case.equal(got, None, "channel-dup")
            case.event("refused")
        elif action == "bad":
            name = names.bad(rng)
            case.equal(reg.channel(name, "bool"), None, "channel-bad")
            gone.add(name)
            case.event("refused")
        elif action == "broken":
            try:
                reg.channel(
                    name,
                    "bool",
                    **rng.choice(
                        [{"enum": -1}, {"default": "text"}, {"bogus": 1}]
                    ),
                )
            except Exception:  # pylint: disable=broad-exception-caught
                gone.add(name)
                case.event("refused")
            else:
                case.fail("channel-broken", name)
        ops.append(action)
        agree(case, reg.names, model, gone, action)
        case.equal(list(reg.items), list(model), "channel-items", action)
        for item, ident in model.items():
            case.expect(
                reg[item] is reg[ident] and reg[item].id == ident,
                "channel-lookup",
                item,
            )
    other = ChannelRegistry.create(json.loads(json.dumps(reg.asdict())))
    agree(case, other.names, model, gone, "reload")
    case.event("reloads")
    case.distinct(ops, list(model.values()))


def booleans(case):
    """Plain boolean registries."""

    rng = case.rng
    reg = BooleanRegistry()
    model = {}
    for _ in range(rng.randint(2, 8)):
        case.event("bool_ops")
        name = rng.choice(
            [names.general(rng, model), names.bad(rng)]
            + (list(model) or ["first"])
        )
        value = rng.random() < 0.5
        ok = (
            names.DEFAULT.fullmatch(name) is not None
            and name not in model
            and value not in model.values()
        )
        case.equal(reg.register(name, value), ok, "bool-register", name)
        if ok:
            model[name] = value
        case.event("accepted" if ok else "refused")
        agree(case, reg, model, {name}, "bool")
    case.distinct(model)


KINDS = {
    "registries": (registries, 2500, 15000),
    "enums": (enums, 1200, 7200),
    "channels": (channels, 1000, 6000),
    "booleans": (booleans, 600, 3600),
}
