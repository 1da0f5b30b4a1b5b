"""C34: the terminal interface shows every channel's current value.

The interface runs in a forked process on a pseudo terminal; a small terminal
emulator reconstructs what a user sees from the bytes that are written. The
rows on it are compared with a model of the channel environment.
"""

import asyncio
import json
import os
import re
import signal
import time

from lib import core
from lib.term import Terminal

PROPERTY = "C34"
RULE = (
    "a case counts by the terminal's sizes, the kinds of channels and the "
    "sequence of operations"
)
REQUIRED = {
    "screens": 400, "rows_read": 3000, "sets": 400, "shorter": 60,
    "resizes": 60, "smaller": 15, "larger": 15, "keys": 60, "enums": 40,
    "booleans": 40, "integers": 100, "floats": 100, "crowded": 20,
    "iterations": 60, "commands": 5,
}
ASSUMPTIONS = [
    "Terminals have at least 14 lines and 60 columns.",
    "Channels that exist when the interface starts are shown.",
]
KEYS = {
    b"a": (97, "a"), b"Z": (90, "Z"), b"7": (55, "7"), b"?": (63, "?"),
    b" ": (32, " "), b"\x01": (1, "^A"), b"\x7f": (127, "^?"),
}
TYPES = {
    "bool": (0, 1), "int8": (-128, 127), "uint8": (0, 255),
    "int16": (-(2**15), 2**15 - 1), "uint16": (0, 2**16 - 1),
    "int32": (-(2**31), 2**31 - 1), "uint32": (0, 2**32 - 1),
    "int64": (-(2**63), 2**63 - 1), "uint64": (0, 2**64 - 1),
    "float": None, "double": None,
}


def build(env, plan):
    """Create channels."""

    enum = None
    for name, kind in plan["channels"].items():
        if kind == "enum":
            if enum is None:
                enum = env.enum(
                    plan["enum_name"], "int", plan["members"]
                )
            env.channel(name, "uint8", enum=enum)
        elif kind == "flag":
            env.channel(name, "bool")
        else:
            env.channel(name, kind)


def interface(plan):
    """Create the body of a child that serves an interface's task."""

    def body(commands, replies):
        import curses

        from runtimepy.channel.environment import ChannelEnvironment
        from runtimepy.tui.task import TuiTask

        env = ChannelEnvironment()
        build(env, plan)
        task = TuiTask(plan["task"], 0.01, env)
        loop = asyncio.new_event_loop()

        def reply(**kwargs):
            replies.write(json.dumps(kwargs) + "\n")
            replies.flush()

        def serve(window):
            for line in commands:
                todo = json.loads(line)
                what = todo["what"]
                if what == "init":
                    got = loop.run_until_complete(task.init(window))
                    reply(result=got, names=sorted(env.names))
                elif what == "set":
                    for name, value in todo["values"]:
                        env.set(name, value)
                    reply()
                elif what == "dispatch":
                    got = True
                    for _ in range(todo["count"]):
                        got = loop.run_until_complete(task.dispatch())
                    reply(
                        result=got,
                        values={x: env.value(x) for x in env.names},
                    )
                else:
                    return 0
            return 1

        return curses.wrapper(serve)

    return body


def same(text, value):
    """Determine if text shows a value."""

    if isinstance(value, bool):
        return text in ("0", "1", "True", "False") and (
            text in ("1", "True")
        ) is value
    if isinstance(value, int):
        return text == str(value)
    if isinstance(value, str):
        return text == value
    try:
        got = float(text)
    except ValueError:
        return False
    if value != value:
        return got != got
    return got == value or abs(got - value) <= 1e-6 + 1e-9 * abs(value)


def parse(row):
    """Get a row's text without the window's border."""
    row = re.sub(r"[\u2500-\u257f]", " ", row)
    return re.sub(r"^[|+\- ]+(?=[A-Za-z])|[|+\s]+$", "", row)


def check_screen(case, term, model, values, shown, key):
    """Compare the screen with the model."""

    rows = term.screen.rows()
    lines, cols = term.screen.size
    dump = "\n".join(rows)
    case.event("screens")
    text = [parse(x) for x in rows]

    # The header shows the window's size and the most recent key.
    for label, want in (("width", cols), ("height", lines)):
        found = [
            re.match(rf"{label}: +(\d+)$", x) for x in text
        ]
        found = [x for x in found if x]
        case.expect(
            len(found) == 1 and int(found[0].group(1)) == want,
            "header-size", f"no '{label}: {want}':\n{dump}",
        )
        case.equal(
            values[f"ui.window.{label}"], want, "size-channels", label
        )
    if key is not None:
        found = [re.match(r"key: +(\d+) '(.+)'$", x) for x in text]
        found = [x for x in found if x]
        case.expect(
            len(found) == 1 and int(found[0].group(1)) == key[0]
            and found[0].group(2) == key[1],
            "header-key", f"{key}:\n{dump}",
        )

    # Channels are shown in order, as many as there's space for.
    listed = [
        (i, x.split(None, 1)) for i, x in enumerate(text)
        if x and x.split(None, 1)[0] in shown
    ]
    space = max(0, lines - 10)
    want = shown[:space] if len(shown) > space else shown
    got = [x[1][0] for x in listed]
    case.expect(
        got[:len(want)] == want and got == shown[:len(got)],
        "channel-rows",
        f"{len(want)} of {shown} fit, shown: {got}:\n{dump}",
    )
    if len(shown) > space:
        case.event("crowded")
    for index, parts in listed:
        name = parts[0]
        case.event("rows_read")
        value = values[name]
        if name in model:
            value = model[name]
            if isinstance(value, float):
                value = values[name]
        got = parts[1].strip() if len(parts) == 2 else ""
        case.expect(
            same(got, value), "channel-value",
            f"row {index}: '{name}' is {value!r}, shown {got!r}:\n{dump}",
        )
    # Nothing else is in the way.
    leftovers = [
        x for i, x in enumerate(text)
        if re.search(r"[A-Za-z0-9]", x) and i not in [y[0] for y in listed]
        and not re.match(
            r"(width|height): +\d+$|key: .*$|Channel Environment", x
        )
    ]
    case.expect(not leftovers, "stale-text", f"{leftovers}:\n{dump}")


def pick_value(rng, kind, members):
    """Get a value for a channel."""

    if kind == "enum":
        return rng.choice(members)
    if kind in ("bool", "flag"):
        return rng.random() < 0.5
    if kind in ("float", "double"):
        return rng.choice([
            0.0, rng.uniform(-1, 1), rng.uniform(-1e6, 1e6),
            float(rng.randint(-9, 9)), rng.uniform(-1e12, 1e12), 0.5,
        ])
    low, high = TYPES[kind]
    return rng.choice([
        low, high, 0, 1, rng.randint(low, high),
        rng.randint(max(low, -99), min(high, 99)),
    ])


def make_plan(case, rng):
    """Choose channels."""

    count = rng.choice([1, 3, 8, 8, 20, 40])
    taken = {}
    while len(taken) < count:
        name = rng.choice("abcdefgh") + rng.choice(
            ["", "_x", "longer_name", ".part", ".value.raw"]
        ) + str(rng.randint(0, 200))
        taken[name] = rng.choice(
            ["enum", "flag", "int8", "uint8", "int16", "uint16", "int32",
             "uint32", "int64", "uint64", "float", "double"]
        )
    members = {
        "on": 1, "off": 0, "a_long_member_name": 2, "mid": 7,
    }
    return {
        "channels": taken, "members": members, "enum_name": "Choice",
        "task": rng.choice(["ui_task", "x"]),
    }


def preload():
    """Import what every forked child needs."""

    import curses  # noqa

    import runtimepy.commands.all  # noqa
    import runtimepy.entry  # noqa
    import runtimepy.tui.task  # noqa
    import uvloop  # noqa


def screens(case):
    """Operate an interface and look at the screen."""

    preload()
    rng = case.rng
    plan = make_plan(case, rng)
    lines, cols = rng.randint(14, 60), rng.randint(60, 120)
    term = Terminal(case, lines, cols, interface(plan))
    model, key = {}, None
    reversed_members = {v: k for k, v in plan["members"].items()}
    try:
        got = term.ask(what="init")
        case.expect(got["result"] is True, "init-result", f"{got}")
        shown = got["names"]
        case.expect(
            set(plan["channels"]) <= set(shown), "names", f"{shown}"
        )
        for name, kind in plan["channels"].items():
            case.event({
                "enum": "enums", "flag": "booleans", "float": "floats",
                "double": "floats",
            }.get(kind, "integers"))
            model[name] = {
                "enum": reversed_members[0], "flag": False, "float": 0.0,
                "double": 0.0,
            }.get(kind, 0)
        history = []
        for _ in range(rng.randint(3, 9)):
            todo = rng.choice(["set", "set", "set", "resize", "key", "none"])
            history.append(todo)
            count = 1
            if todo == "set":
                values = []
                for _ in range(rng.randint(1, 6)):
                    name = rng.choice(sorted(plan["channels"]))
                    value = pick_value(
                        rng, plan["channels"][name], sorted(plan["members"])
                    )
                    case.event("sets")
                    if len(str(value)) < len(str(model[name])):
                        case.event("shorter")
                    model[name] = value
                    values.append((name, value))
                term.ask(what="set", values=values)
                case.note(f"set {values}")
            elif todo == "resize":
                lines, cols = rng.randint(14, 60), rng.randint(60, 120)
                before = term.screen.size
                case.event("resizes")
                if lines < before[0] or cols < before[1]:
                    case.event("smaller")
                if lines > before[0] or cols > before[1]:
                    case.event("larger")
                case.note(f"resize {before} -> {(lines, cols)}")
                term.resize(lines, cols)
                if (lines, cols) != before:
                    key = (410, "KEY_RESIZE")
                count = 2
            elif todo == "key":
                raw = rng.choice(sorted(KEYS))
                key = KEYS[raw]
                case.note(f"key {key}")
                case.event("keys")
                term.type(raw)
                count = 2
            got = term.ask(what="dispatch", count=count)
            case.expect(got["result"] is True, "dispatch-result", f"{got}")
            check_screen(case, term, model, got["values"], shown, key)
        case.expect(not term.screen.cursor, "cursor-visible", "")
        os.write(term.commands, b'{"what": "end"}\n')
        case.equal(term.wait(), 0, "exit-code", term.errors()[-600:])
        case.distinct(
            (lines // 10, cols // 20), tuple(history),
            tuple(sorted(set(plan["channels"].values()))),
        )
    finally:
        term.close()


def command(case):
    """Run the 'tui' command."""

    preload()
    rng = case.rng
    iterations = rng.randint(1, 30)
    rate = rng.choice([100.0, 200.0, 500.0])
    forever = rng.random() < 0.3
    argv = ["runtimepy"]
    if rng.random() < 0.5:
        argv.append("--no-uvloop")
    argv += ["tui", rng.choice(["-r", "--rate"]), str(rate)]
    if not forever:
        argv += [rng.choice(["-i", "--iterations"]), str(iterations)]

    def body(commands, replies):
        from runtimepy.entry import main

        return main(argv)

    lines, cols = rng.randint(24, 40), rng.randint(60, 100)
    term = Terminal(case, lines, cols, body)
    case.event("commands")
    try:
        if forever:

            def dispatches():
                term.drain()
                for row in term.screen.rows():
                    found = re.search(r"dispatches +(\d+)", row)
                    if found:
                        return int(found.group(1))
                return -1

            end = time.monotonic() + 40
            while dispatches() < iterations:
                if term.poll() or time.monotonic() > end:
                    raise core.Stalled(
                        f"{argv}: {dispatches()} {term.errors()[-500:]}"
                    )
                time.sleep(0.01)
            os.kill(term.pid, signal.SIGINT)
        code = term.wait()
        case.equal(code, 0, "exit-code", f"{argv}: {term.errors()[-600:]}")
        case.expect(term.written > 100, "output", f"{term.written}")
        case.event("iterations", iterations)
        case.expect(term.screen.cursor, "cursor-restored", "")
    finally:
        term.close()
    case.distinct("command", forever, rate)


KINDS = {
    "screens": (screens, 500, 6000),
    "command": (command, 16, 250),
}
