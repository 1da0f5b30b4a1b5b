"""C13: channel commands never raise and fail without side effects."""

import asyncio
import contextlib
import io
import logging
import math

from lib import envs, prims

from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
    RemoteCommandProcessor,
)

PROPERTY = "C13"
RULE = (
    "random well-formed commands with a modelled effect plus token-salad and "
    "random-text command lines against random environments; non-trivial = "
    "distinct command line"
)
REQUIRED = {"commands": 6000, "accepted": 1000, "rejected": 2000,
            "hooks": 1000, "uncommandable": 150, "forced": 150,
            "custom": 100, "toggles": 150, "gets": 300, "fuzzed": 3000,
            "suggestions": 2000}


class Quiet(logging.Logger):
    """Formats records but doesn't print them."""

    def __init__(self):
        super().__init__("quiet", logging.DEBUG)
        self.propagate = False
        self.texts = []
        outer = self

        class Handler(logging.Handler):
            def emit(self, record):
                outer.texts.append(record.getMessage())

        self.addHandler(Handler())


def snapshot(model):
    """Everything a command could change."""
    env = model.env
    return {
        name: repr(env.value(name, resolve_enum=False, scaled=False))
        for name in model.order
    }


def run(case, proc, line):
    """Run a command; it must always return a result."""
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        try:
            result = proc.command(line)
        except BaseException as exc:  # pylint: disable=broad-except
            if isinstance(exc, KeyboardInterrupt):
                raise
            case.fail("raised", f"{line[:200]!r}: {exc!r}")
    case.event("commands")
    case.expect(
        isinstance(result.success, bool)
        and bool(result) is result.success,
        "result",
        line,
    )
    case.expect(
        str(result).startswith("(success)" if result else "(failure)"),
        "result-text",
        str(result),
    )
    if not result:
        case.expect(
            bool(result.reason) and result.reason in str(result),
            "unexplained-failure",
            line[:200],
        )
    return result


def plain(text):
    """Whether the text is one ordinary word to the command parser."""
    return not text.startswith("-") and text.split() == [text]


def targets(model):
    return [x for x in model.order if plain(x)]


def set_text(case, model, name):
    """A value and the raw value it must lead to (None: refused)."""
    rng = case.rng
    spec = model.specs[name]
    items = model.enums[spec.enum]["items"] if spec.enum else None
    if rng.random() < 0.25:
        bad = ["bogus", "1.2.3", "tru", "0x", "é", "None", "{}", "1,5"]
        if items is not None:
            bad += ["999999", "nope"]
        elif spec.is_int or spec.is_field:
            bad += ["nan", "inf", "9" * 5000]
        elif spec.is_bool:
            bad += ["2", "yes!", "nan"]
        return rng.choice(bad), None
    if items is not None:
        text = rng.choice(list(items))
        return text, items[text]
    while True:
        raw = envs.random_raw(rng, spec)
        if spec.is_field:
            text = str(raw)
            if spec.width == 1:
                text = rng.choice(["true", "1"] if raw else ["false", "0"])
        elif spec.is_bool:
            text = rng.choice(["true", "True"] if raw else ["false", "FALSE"])
        elif spec.is_float:
            if spec.scaling:
                text = repr(envs.scale(spec, raw))
            else:
                text = rng.choice([repr(raw), f"{raw:.6f}"])
                if math.isinf(raw):
                    text = repr(raw)
                raw = float(text)
                if spec.kind == "float" and math.isfinite(raw):
                    try:
                        raw = prims.to_single(raw)
                    except OverflowError:
                        continue
        elif spec.scaling:
            text = repr(envs.scale(spec, raw))
        else:
            text = str(raw)
        # argparse only takes plain negative numbers as values.
        if text.startswith("-") and ("e" in text or "inf" in text):
            continue
        return text, raw


def modelled(case):
    """Commands with a known effect."""
    rng = case.rng
    model = envs.build(case)
    env = model.env
    envs.randomize(case, model)
    logger = Quiet()
    proc = ChannelCommandProcessor(env, logger)
    seen = []
    hooks = rng.randint(0, 3)
    for i in range(hooks):
        proc.hooks.append(lambda args, chan, i=i: seen.append((i, args, chan)))
    usable = targets(model)
    for _ in range(rng.randint(10, 40)):
        if not usable:
            break
        name = rng.choice(usable)
        spec = model.specs[name]
        before = snapshot(model)
        command = rng.choice(["set", "set", "set", "toggle", "get", "unknown",
                              "novalue", "custom", "remote"])
        flags, forced = [], False
        if rng.random() < 0.4:
            flags, forced = [rng.choice(["-f", "--force"])], True
        if rng.random() < 0.1:
            flags += ["-e", "default"]
        seen.clear()
        want_ok, want, want_hook = False, None, None
        if command == "set":
            text, raw = set_text(case, model, name)
            parts = ["set", name, text]
            want_ok = raw is not None and (spec.commandable or forced)
            want = raw if want_ok else None
        elif command == "toggle":
            parts = ["toggle", name]
            if rng.random() < 0.1:
                parts.append("extra")
            can = spec.is_bool or spec.is_field
            want_ok = can and (spec.commandable or forced)
            if want_ok:
                if spec.is_field:
                    want = model.get(name) ^ ((1 << spec.width) - 1)
                else:
                    want = not model.raw[name]
                case.event("toggles")
        elif command == "get":
            parts = ["get", name]
            want_ok = True
            case.event("gets")
        elif command == "unknown":
            missing = rng.choice(["nope", name + "!", "a.b.c", "99999"])
            parts = [rng.choice(["set", "toggle", "get"]), missing, "1"]
            name = missing
        elif command == "novalue":
            parts = ["set", name]
        elif command == "custom":
            parts = ["custom", rng.choice(["anything", name]), "x"]
            want_ok, want_hook = True, "none"
            case.event("custom")
        else:
            parts = [rng.choice(["set", "toggle"]), name, "1",
                     rng.choice(["-r", "--remote"])]
            want_ok, want_hook = True, "none"
        # Flags may appear anywhere.
        for flag in ([flags] if flags else []):
            at = rng.choice([0, 1, len(parts)])
            parts[at:at] = flag
        line = rng.choice([" ", "  ", "\t"]).join(parts)
        case.note(line)
        result = run(case, proc, line)
        case.equal(result.success, want_ok, "verdict", f"{line!r} {result}")
        case.event("accepted" if result else "rejected")
        if command in ("set", "toggle") and not spec.commandable:
            case.event("forced" if forced else "uncommandable")
        after = snapshot(model)
        if want is None:
            case.equal(after, before, "side-effect", line)
        else:
            check_effect(case, model, name, want, line)
        if command == "get":
            val = env.value(name)
            case.equal(result.reason, str(val), "get-value")
            want_val = model.value(name)
            if not (isinstance(want_val, float)):
                case.equal(result.reason, str(want_val), "get-text")
        # Hooks.
        if command == "get":
            continue
        case.equal(
            [x[0] for x in seen],
            list(range(hooks)) if want_ok else [],
            "hooks",
            line,
        )
        for _, args, chan in seen:
            case.event("hooks")
            if want_hook == "none":
                case.expect(chan is None, "hook-channel", line)
            else:
                case.expect(
                    chan is env.field_or_channel(name), "hook-channel", line
                )
                case.equal(str(args.channel), name, "hook-args")
                case.equal(str(args.command), command, "hook-command")
        case.distinct(line)
    case.sample(" ; ".join(case.trace[-4:]))


def check_effect(case, model, name, want, line):
    """Exactly the requested change happened."""
    spec = model.specs[name]
    env = model.env
    got = env.value(name, resolve_enum=False, scaled=False)
    if spec.is_float and spec.scaling:
        tol = 1e-5 if spec.kind == "float" else 1e-9
        case.expect(
            math.isclose(got, want, rel_tol=tol, abs_tol=tol * 200),
            "effect",
            f"{line} got={got} want={want}",
        )
        want = got
    elif spec.is_float:
        case.expect(prims.same(got, want), "effect", f"{line} {got} {want}")
    else:
        case.expect(int(got) == int(want), "effect", f"{line} {got} {want}")
    model.put(name, want)
    for other in model.order:
        raw = env.value(other, resolve_enum=False, scaled=False)
        expected = model.get(other)
        case.expect(
            prims.same(raw, expected)
            if isinstance(raw, float)
            else int(raw) == int(expected),
            "other-changed",
            f"{line}: {other} {raw} {expected}",
        )


TOKENS = ["set", "get", "toggle", "custom", "-f", "-r", "-e", "--", "--force",
          "--env=x", "--for", "--re", "-h", "--help", "help", "1", "-1",
          "1e5", "-1e5", "inf", "nan", "-inf", "x", "é", "-", "--x=1", "-fr",
          "-fx", "@a", "zero", "%s", "%", "{}", "--f=1", "-e5", "\x00", "s",
          "SET", "'", '"', "9" * 5000, "true", "false", "-", "--e", "[]",
          "%(prog)s", "$(x)", "\\", "0x10", "1_0", "-hf", "--rem", "==", "=",
          "*", "-f=", "--env", "--env=", "-e="]


def fuzz(case):
    """Arbitrary command lines."""
    rng = case.rng
    model = envs.build(case)
    envs.randomize(case, model)
    kind = rng.choice([ChannelCommandProcessor, RemoteCommandProcessor])
    proc = kind(model.env, Quiet())
    seen = []
    proc.hooks.append(lambda args, chan: seen.append((args, chan)))
    for _ in range(60):
        before = snapshot(model)
        seen.clear()
        mode = rng.randrange(3)
        if mode == 0:
            line = prims.text(rng, 30)
        else:
            line = " ".join(
                rng.choice(model.order)
                if rng.random() < 0.3
                else rng.choice(TOKENS)
                for _ in range(rng.randint(0, 6))
            )
        if mode == 2:
            line = rng.choice(["set", "toggle", "get"]) + " " + line
        case.note(line)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                proc.get_suggestion(line)
            except BaseException as exc:  # pylint: disable=broad-except
                case.fail("suggestion-raised", f"{line[:200]!r}: {exc!r}")
        case.equal(snapshot(model), before, "suggestion-effect", line[:99])
        result = run(case, proc, line)
        case.event("fuzzed")
        after = snapshot(model)
        if not result:
            case.event("rejected")
            case.equal(after, before, "failed-with-effect", line[:200])
            case.equal(len(seen), 0, "failed-with-hook", line[:200])
        else:
            case.expect(len(seen) <= 1, "hook-repeated", line[:200])
            changed = [x for x in after if after[x] != before[x]]
            case.expect(len(changed) <= 1, "many-changed", line[:200])
            words = line.split()
            for name in changed:
                case.expect(
                    str(name) in words
                    or str(model.specs[name].ident) in words,
                    "unnamed-changed",
                    line[:200],
                )
                case.expect(
                    model.specs[name].commandable
                    or any(x.startswith(("-f", "--f", "-rf")) or
                           (x.startswith("-") and "f" in x) for x in words),
                    "uncommandable-changed",
                    line[:200],
                )
            if kind is RemoteCommandProcessor:
                case.equal(changed, [], "remote-changed-local", line[:200])
        case.distinct(line)


def custom(case):
    """Custom commands are dispatched by name."""
    rng = case.rng
    model = envs.build(case, size=4)
    logger = Quiet()
    proc = ChannelCommandProcessor(model.env, logger)
    ran = []

    async def first(args, channel):
        ran.append(("first", list(args.extra), channel))

    async def second(args, channel):
        ran.append(("second", list(args.extra), channel))

    proc.register_custom_commands(first, second)
    try:
        proc.register_custom_commands(first)
        case.fail("duplicate-custom", "first")
    except AssertionError:
        pass
    queue = []
    proc.hooks.append(lambda args, chan: queue.append((args, chan)))
    want = []
    for _ in range(rng.randint(1, 6)):
        name = rng.choice(["first", "second", "third"])
        extra = [rng.choice("abc") for _ in range(rng.randint(0, 3))]
        result = run(case, proc, " ".join(["custom", name, *extra]))
        case.expect(result.success, "custom-refused", name)
        case.event("custom")
        if name != "third":
            want.append((name, extra, None))

    async def handle():
        for args, chan in queue:
            await proc.handle_custom_command(args, chan)

    asyncio.run(handle())
    case.equal(ran, want, "custom-dispatch")


def suggestions(case):
    """Suggestions complete what was entered."""
    rng = case.rng
    model = envs.build(case)
    proc = ChannelCommandProcessor(model.env, Quiet())
    for _ in range(40):
        name = rng.choice(model.order)
        start = name[: rng.randint(0, len(name))]
        if rng.random() < 0.1:
            start += rng.choice(["zz", "*", ".", "$"])
        if start.startswith("-") or start.split() != [start]:
            continue
        command = rng.choice(["set", "toggle", "get"])
        flag = rng.choice(["", "", " -f"])
        got = proc.get_suggestion(f"{command}{flag} {start}")
        # (Names that were created in foreign namespaces aren't suggested.)
        names = [x for x in model.env.ns.names if x.startswith(start)]
        usable = [
            x
            for x in names
            if x in model.specs and model.specs[x].commandable
        ] or names
        want = {
            f"{command} {x}"
            for x in usable
            if len(x) == min(map(len, usable))
        } or {None}
        case.expect(
            got in want, "suggestion",
            f"{command} {start!r}: {got!r} instead of {want}",
        )
        case.event("suggestions")
        case.distinct(got)


KINDS = {
    "modelled": (modelled, 600, 6000),
    "fuzz": (fuzz, 240, 3000),
    "custom": (custom, 90, 540),
    "suggestions": (suggestions, 120, 900),
}
