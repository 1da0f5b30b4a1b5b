"""C10: channel environments read and write exactly the addressed item."""

import math
import re

from lib import envs, names, prims

PROPERTY = "C10"
RULE = (
    "random environments (all channel kinds, enums, scaling, namespaces, bit "
    "fields added in both ways) driven by random valid and invalid sets by "
    "name and id against a shadow model; non-trivial = distinct environment "
    "with at least four items"
)
REQUIRED = {"sets": 4000, "refused": 500, "reads": 10000, "maps": 1000,
            "lookups": 1500, "searches": 500, "by_id": 1000, "typed": 1000,
            "ages": 2000}


def compare(case, model, where):
    """The whole environment agrees with the model."""
    got = model.env.values()
    want = model.all()
    case.event("maps")
    case.equal(list(got), list(want), "value-map-keys", where)
    for name, val in want.items():
        case.expect(
            envs.close(model.specs[name], got[name], val),
            "value-map",
            f"{where}: {name} got={got[name]!r} want={val!r}",
        )


def check_reads(case, model):
    """Every way to read and look up an item agrees."""
    env, rng = model.env, case.rng
    for name in rng.sample(model.order, min(4, len(model.order))):
        spec = model.specs[name]
        for key in (name, spec.ident):
            resolve, scaled = rng.random() < 0.5, rng.random() < 0.5
            got = env.value(key, resolve_enum=resolve, scaled=scaled)
            want = model.value(name, resolve, scaled)
            case.event("reads")
            if isinstance(want, float) and math.isnan(want):
                case.expect(math.isnan(got), "read", f"{key} {got}")
            else:
                case.expect(
                    envs.close(spec, got, want),
                    "read",
                    f"{key!r} ({spec.kind}) resolve={resolve} "
                    f"scaled={scaled} got={got!r} want={want!r}",
                )
            case.expect(env.exists(key), "exists", key)
            found = env.field_or_channel(key)
            prim = found.raw
            since = rng.randint(1, 1000) * 10**9
            prim.last_updated_ns = start = prim.time_source() - since
            got = env.age_ns(key)
            case.expect(
                since <= got <= prim.time_source() - start, "age",
                f"{key!r} {got} instead of {since}",
            )
            prim.last_updated_ns = prim.time_source()
            case.event("ages")
            if spec.is_field:
                case.equal(
                    (found.name, found.index, found.width),
                    (name, spec.index, spec.width),
                    "field-lookup",
                )
                case.expect(found.raw is spec.prim, "field-primitive", name)
                case.expect(env.get(key) is None, "field-as-channel", name)
            else:
                case.expect(found is spec.chan, "channel-lookup", str(key))
                chan, enum = env[key]
                case.expect(chan is spec.chan, "getitem", str(key))
                case.equal(chan.id, spec.ident, "channel-id")
                case.equal(
                    None if enum is None else enum.id,
                    None if not spec.enum
                    else model.enums[spec.enum]["ident"],
                    "channel-enum",
                    name,
                )
                case.expect(env.get(key)[0] is chan, "get", str(key))
            case.event("lookups")
            case.equal(
                (env.channels.names.name(key),
                 env.channels.names.identifier(key)),
                (name, spec.ident),
                "name-id",
            )


def check_typed(case, model):
    """Typed look-ups agree with the channel's type."""
    env = model.env
    for name, spec in model.specs.items():
        if spec.is_field or getattr(spec, "generic", False):
            continue
        for getter, fits in (
            (env.get_int, spec.is_int),
            (env.get_bool, spec.is_bool),
            (env.get_float, spec.is_float),
        ):
            try:
                got = getter(model.key(case.rng, name))
                got = got[0] if isinstance(got, tuple) else got
                case.expect(fits and got is spec.chan, "typed-lookup", name)
            except KeyError:
                case.expect(not fits, "typed-lookup-refused", name)
            case.event("typed")


def check_search(case, model):
    env, rng = model.env, case.rng
    name = rng.choice(model.order)
    start = rng.randrange(len(name))
    part = name[start: start + rng.randint(1, 4)]
    pattern = rng.choice(
        [re.escape(part), f"^{re.escape(name[:2])}", ".*", re.escape(name),
         f"{re.escape(name[-2:])}$", "nothing-like-it!"]
    )
    want = [x for x in model.order if re.search(pattern, x)]
    case.equal(list(env.search_names(pattern)), want, "search", pattern)
    case.equal(
        list(env.search_names(name, exact=True)),
        [name],
        "exact-search",
        name,
    )
    case.equal(list(env.names), model.order, "names-order")
    case.event("searches")


def pick_set(case, model):
    """A random assignment: (key, value, scaled, expected raw or None)."""
    rng = case.rng
    name = rng.choice(model.order)
    spec = model.specs[name]
    key = model.key(rng, name)
    if key != name:
        case.event("by_id")
    scaled = rng.random() < 0.6
    raw = envs.random_raw(rng, spec, nan=rng.random() < 0.2)
    bad = rng.random() < 0.2
    items = model.enums[spec.enum]["items"] if spec.enum else None

    if bad:
        which = rng.randrange(3)
        if which == 0:
            unknown = rng.choice(
                ["nope!", "missing.name", 99999, -4, "", name + "!"]
            )
            return name, unknown, rng.choice([1, True, "1"]), scaled, None
        text = rng.choice(["bogus", "", " ", "1.2.3", "tru", "0x", "--", "é"])
        if items is not None and text in items:
            text = "1.2.3"
        if spec.is_field and which == 2 and not spec.enum:
            return name, key, "maybe", scaled, None
        return name, key, text, scaled, None

    if items is not None and rng.random() < 0.6:
        text = rng.choice(list(items))
        return name, key, text, scaled, items[text]

    as_text = rng.random() < 0.3
    if spec.is_field:
        if spec.width == 1 and rng.random() < 0.5:
            value = bool(raw)
        else:
            value = raw
        if as_text and not spec.enum:
            value = (
                rng.choice(["true", "True"] if value else ["false", "False"])
                if spec.width == 1
                else str(raw)
            )
        return name, key, value, scaled, raw
    if spec.is_bool:
        value = raw
        if as_text:
            value = rng.choice(
                ["true", "True"] if raw else ["false", "False"]
            )
        return name, key, value, scaled, raw
    if spec.scaling:
        # Written in engineering units (text is always in those units).
        scaled = scaled or as_text
        value = envs.scale(spec, raw) if scaled else raw
        return name, key, str(value) if as_text else value, scaled, (
            raw if spec.is_int or not scaled else value
        )
    if as_text and not spec.enum:
        return name, key, repr(raw), scaled, raw
    return name, key, raw, scaled, raw


def programs(case):
    """Random environments under random assignments."""
    rng = case.rng
    model = envs.build(case)
    env = model.env
    for name, spec in model.specs.items():
        if not spec.is_field:
            case.expect(
                spec.name == env.channels.names.name(spec.chan.id),
                "full-name",
                f"{spec.name} {env.channels.names.name(spec.chan.id)}",
            )
    compare(case, model, "new")
    if rng.random() < 0.7:
        envs.randomize(case, model)
        compare(case, model, "initial")
    check_typed(case, model)

    case.equal(
        env.num_defaults,
        sum(x.default is not None for x in model.specs.values()),
        "num-defaults",
    )

    for _ in range(rng.randint(15, 60)):
        name, key, value, scaled, raw = pick_set(case, model)
        spec = model.specs[name]
        case.note(f"{key!r} = {value!r} scaled={scaled} ({spec.kind})")
        how = rng.randrange(3) if scaled else 0
        try:
            if how == 0:
                env.set(key, value, scaled=scaled)
            elif how == 1:
                env[key] = value
            else:
                env.apply({key: value})
        except (KeyError, ValueError, AssertionError, TypeError) as exc:
            case.expect(
                raw is None,
                "valid-set-refused",
                f"{name} ({spec.kind}) = {value!r}: {exc!r}",
            )
            case.event("refused")
        else:
            case.expect(
                raw is not None,
                "invalid-set-accepted",
                f"{key!r} ({spec.kind}) = {value!r}",
            )
            case.event("sets")
            if spec.is_float and spec.scaling and scaled:
                # Inverted in floating point.
                got = env.value(key)
                tol = 1e-5 if spec.kind == "float" else 1e-9
                case.expect(
                    math.isclose(got, raw, rel_tol=tol, abs_tol=tol * 200),
                    "set-float",
                    f"{name} {raw} {got}",
                )
                model.put(name, env.value(key, scaled=False))
            else:
                if spec.kind == "float" and isinstance(raw, float):
                    raw = prims.to_single(raw) if math.isfinite(raw) else raw
                model.put(name, raw)
        compare(case, model, f"after {key!r} = {value!r}")
        if rng.random() < 0.3:
            check_reads(case, model)
        if rng.random() < 0.1:
            check_search(case, model)
    if len(model.order) >= 4:
        case.distinct(
            [(x.name, x.kind, x.enum, x.index) for x in model.specs.values()]
        )
    case.sample(f"{len(model.order)} items: {model.order[:6]}")


def counters(case):
    """Typed modification and defaults."""
    rng = case.rng
    model = envs.build(case, fields=False)
    env = model.env
    ints = [
        n for n, x in model.specs.items()
        if x.is_int and not x.scaling and not getattr(x, "generic", False)
    ]
    for _ in range(20):
        if not ints:
            break
        name = rng.choice(ints)
        low, high = prims.bounds(model.specs[name].kind)
        target = rng.randint(low, high)
        amount = target - model.raw[name]
        case.equal(
            env.add_int(model.key(rng, name), amount), target, "add-int"
        )
        model.raw[name] = target
        compare(case, model, f"add {name}")
        case.event("sets")
    defaults = sum(x.default is not None for x in model.specs.values())
    for name, spec in model.specs.items():
        if rng.random() < 0.5:
            value = envs.random_raw(rng, spec)
            if spec.default is None:
                defaults += 1
            spec.default = value
            env.set_default(name, value)
            case.equal(env[name][0].default, value, "default")
            case.expect(env[name][0].has_default, "has-default", name)
    case.equal(env.num_defaults, defaults, "num-defaults")
    compare(case, model, "defaults don't write")


def refused(case):
    """Refused creations leave the environment as it was."""
    rng = case.rng
    model = envs.build(case, finalize=False, size=8)
    env = model.env
    for _ in range(8):
        which = rng.randrange(4)
        chans = [n for n, x in model.specs.items() if not x.is_field]
        before = list(env.names)
        try:
            if which == 0:
                env.channel(rng.choice(model.order), "bool")
            elif which == 1:
                env.channel(names.bad(rng), "uint8")
            elif which == 2:
                env.int_channel(names.bad(rng), "int16", enum="no such enum")
            else:
                env.enum(rng.choice(list(model.enums)), "int", {"a": 1})
        except (AssertionError, KeyError):
            case.event("refused")
        else:
            case.fail("duplicate-accepted", f"{which}")
        case.equal(list(env.names), before, "refused-changed-names")
        compare(case, model, "after refusal")
        if chans:
            name = rng.choice(chans)
            case.expect(
                env.get(name)[0] is model.specs[name].chan,
                "refused-replaced",
                name,
            )
    envs.finish(model)
    compare(case, model, "final")
    try:
        env.channel("late_channel", "bool")
    except AssertionError:
        case.event("refused")
    else:
        case.fail("created-after-finalize", "late_channel")
    compare(case, model, "after late creation")


KINDS = {
    "programs": (programs, 1400, 12000),
    "counters": (counters, 120, 1500),
    "refused": (refused, 120, 1500),
}
