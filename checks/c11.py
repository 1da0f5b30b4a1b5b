"""C11: environments survive export and re-load."""

import json
import math

from lib import envs

from runtimepy.channel.environment import ChannelEnvironment

PROPERTY = "C11"
RULE = (
    "random environments with random state exported in memory or to files "
    "(json, repeated generations) and compared attribute by attribute; "
    "non-trivial = distinct environment with a bit field or enum"
)
REQUIRED = {"reloads": 250, "channels": 1500, "fields": 300, "values": 1500,
            "scaled": 150, "generations": 250, "enums": 400}


def reload(case, env, resolve):
    """Export and load in one of the supported ways."""
    rng = case.rng
    how = rng.choice(["memory", "text", "directory", "files"])
    case.event(f"via_{how}")
    if how in ("memory", "text"):
        data = env.export_json(resolve_enum=resolve)
        if how == "text":
            data = json.loads(json.dumps(data))
        else:
            data = json.loads(json.dumps(data)) if rng.random() < 0.5 else data
        return ChannelEnvironment.load_json(data)
    if how == "directory":
        path = case.scratch.joinpath(f"e{rng.randrange(10**9)}", "sub")
        env.export_directory(path, resolve_enum=resolve)
        return ChannelEnvironment.load_directory(path)
    base = case.scratch.joinpath(f"f{rng.randrange(10**9)}")
    base.mkdir()
    paths = {
        x: base.joinpath(f"my_{x}.json")
        for x in ["channels", "enums", "values", "fields", "names"]
    }
    env.export(resolve_enum=resolve, **paths)
    return ChannelEnvironment.load(**paths)


def verify(case, model, env, where, wrote):
    """A re-loaded environment matches the model."""
    old = model.env
    case.equal(
        {x: env.channels.names.identifier(x) for x in env.names},
        {x: model.specs[x].ident for x in model.order},
        "names",
        where,
    )
    for name, spec in model.specs.items():
        if spec.is_field:
            case.event("fields")
            field = env.fields[name]
            case.equal(
                (field.name, field.index, field.width, field.commandable,
                 field.description or None, str(field.raw.kind)),
                (name, spec.index, spec.width, spec.commandable,
                 spec.description or None, spec.kind),
                "field",
                where,
            )
            got = (
                env.fields.enum_lookup[name].id if field.is_enum else None
            )
            want = model.enums[spec.enum]["ident"] if spec.enum else None
            case.equal(got, want, "field-enum", f"{where} {name}")
            case.expect(env.get(name) is None, "field-became-channel", name)
        else:
            case.event("channels")
            found = env.get(spec.ident)
            case.expect(found is not None, "channel-missing", name)
            chan, enum = found
            case.expect(env.get(name)[0] is chan, "channel-id", name)
            case.equal(
                (chan.id, str(chan.type), bool(chan.commandable),
                 chan.description or None, chan.default, chan.controls or None,
                 list(chan.raw.scaling or [])),
                (spec.ident, spec.kind, spec.commandable,
                 spec.description or None, spec.default,
                 spec.controls, list(spec.scaling or [])),
                "channel",
                f"{where} {name}",
            )
            case.equal(
                type(chan.default), type(spec.default), "default-type", name
            )
            case.equal(
                None if enum is None else enum.id,
                model.enums[spec.enum]["ident"] if spec.enum else None,
                "channel-enum",
                f"{where} {name}",
            )
            if spec.scaling:
                case.event("scaled")
            # Loaded environments know their channels by type.
            getter = (
                env.get_bool if spec.is_bool
                else env.get_int if spec.is_int else env.get_float
            )
            got = getter(name)
            case.expect(
                (got[0] if isinstance(got, tuple) else got) is chan,
                "typed",
                name,
            )
    for name, data in model.enums.items():
        case.event("enums")
        enum = env.enums[name]
        table = enum.ints if data["kind"] == "int" else enum.bools
        case.equal(
            (enum.id, str(enum.type), table.asdict(), enum.primitive),
            (data["ident"], data["kind"], data["items"],
             old.enums[name].primitive),
            "enum",
            f"{where} {name}",
        )
    for name, spec in model.specs.items():
        raw = env.value(name, resolve_enum=False, scaled=False)
        want = model.get(name)
        if spec.is_field and spec.width == 1:
            want = bool(want)
        case.event("values")
        if name in wrote:
            if spec.scaling and spec.is_float:
                tol = 1e-5 if spec.kind == "float" else 1e-9
                case.expect(
                    math.isclose(raw, want, rel_tol=tol, abs_tol=tol * 300),
                    "value",
                    f"{where} {name}: {raw} {want}",
                )
            else:
                case.expect(
                    raw == want
                    and isinstance(raw, bool) == isinstance(want, bool),
                    "value",
                    f"{where} {name} ({spec.kind}): {raw!r} {want!r}",
                )
            case.expect(
                envs.close(spec, env.value(name), model.value(name))
                or (spec.scaling and spec.is_float),
                "read",
                f"{where} {name}: {env.value(name)!r} {model.value(name)!r}",
            )


def same_export(case, one, two, specs):
    """Two exports describe the same thing."""
    for part in ("channels", "enums", "fields", "names"):
        a, b = one[part], two[part]
        if a != b:
            case.fail("export-differs", f"{part}: {a} {b}")
    case.equal(
        sorted(one["values"]), sorted(two["values"]), "export-values"
    )
    for name, val in one["values"].items():
        other = two["values"][name]
        if specs[name].scaling:
            case.expect(
                other == val
                or math.isclose(val, other, rel_tol=1e-5, abs_tol=1e-3),
                "export-value",
                f"{name} {val} {other}",
            )
        else:
            case.equal(other, val, "export-value", name)


def reloads(case):
    """Export, load, compare; several generations."""
    rng = case.rng
    model = envs.build(case, finalize=rng.random() < 0.8)
    env = model.env
    if not model.finalized:
        # Exporting finalizes.
        env.export_json()
        case.expect(env.finalized, "export-finalizes", "")
        model.env.to_add.clear()
        for spec in model.late:
            model.specs[spec.name] = spec
            model.order.append(spec.name)
        for name, spec in model.specs.items():
            if spec.ident is None:
                spec.ident = env.channels.names.identifier(name)
    if rng.random() < 0.9:
        envs.randomize(case, model, nan=True)
    resolve = rng.random() < 0.6
    first = json.loads(json.dumps(env.export_json(resolve_enum=resolve)))
    wrote = set(first["values"])
    for name in model.order:
        val = model.value(name)
        nan = isinstance(val, float) and math.isnan(val)
        case.expect((name in wrote) == (not nan), "exported-values", name)
    current = env
    for gen in range(rng.randint(1, 3)):
        current = reload(case, current, resolve)
        case.event("reloads")
        case.expect(current.finalized, "loaded-final", "")
        verify(case, model, current, f"generation {gen}", wrote)
        again = json.loads(
            json.dumps(current.export_json(resolve_enum=resolve))
        )
        for name in set(again["values"]) - wrote:
            # Never exported (NaN), so the default is what's left.
            again["values"].pop(name)
        same_export(case, first, again, model.specs)
        case.event("generations")
    case.expect(current == env, "environments-equal", "")
    # The copy is independent of the original.
    before = env.export_json()["values"]
    for name, spec in model.specs.items():
        current.set(
            name, envs.random_raw(rng, spec), scaled=False
        )
    after = env.export_json()["values"]
    case.equal(after, before, "reload-shares-state")
    if any(x.is_field or x.enum for x in model.specs.values()):
        case.distinct(first["channels"], first["fields"])
    case.sample(f"{len(model.order)} items via resolve={resolve}")


KINDS = {"reloads": (reloads, 1250, 7500)}
