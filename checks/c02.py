"""C02: change notifications fire exactly once per actual change, in order."""

from io import BytesIO
import math

from lib import prims

from runtimepy.channel.environment import ChannelEnvironment

PROPERTY = "C02"
RULE = (
    "random assignment histories (11 write paths) interleaved with listener "
    "registration/removal, plus re-entrant listeners; non-trivial when at "
    "least one notification and one suppressed assignment were observed; "
    "signature = kind + operation sequence"
)
REQUIRED = {
    "notifications": 2000,
    "suppressed": 300,
    "reentrant_changes": 300,
    "env_writes": 200,
}


class Clock:
    """A controllable time source."""

    def __init__(self):
        self.now = 1000

    def __call__(self):
        return self.now


def store(kind, value):
    """What the storage of this kind keeps."""
    if kind in ("half", "float"):
        return prims.to_single(value)
    return value


def in_range(rng, kind):
    if kind in prims.FLOATS:
        if rng.random() < 0.4:
            return rng.choice([0.1, 0.2, 1.0 / 3, -0.7, 1e-3, 0.0, 2.5])
        val = prims.value(rng, kind)
        return val
    return prims.value(rng, kind)


def histories(case):
    """Sequential histories against an exact model."""

    rng = case.rng
    kind = rng.choice(prims.KINDS)
    clock = Clock()
    prim = prims.make(kind, time_source=clock)
    current = prim.value
    case.equal(prim.last_updated_ns, 1000, "initial-timestamp")

    log = []
    listeners = {}
    order = []
    removed = set()
    count = 0
    palette = [in_range(rng, kind) for _ in range(rng.choice([2, 3, 8]))]
    ops = []
    notified = suppressed = 0

    def listener(tag):
        return lambda old, new: log.append((tag, old, new, prim.value))

    for _ in range(rng.randint(5, 60)):
        clock.now += rng.choice([0, 1, 17])
        choice = rng.random()
        if choice < 0.18:
            once = rng.random() < 0.35
            tag = count
            count += 1
            ident = prim.register_callback(listener(tag), once=once)
            case.expect(ident not in listeners, "ident-reuse", ident)
            listeners[ident] = (tag, once)
            order.append(ident)
            ops.append("reg1" if once else "reg")
            continue
        if choice < 0.26 and order:
            ident = rng.choice(order)
            case.equal(prim.remove_callback(ident), True, "remove-known")
            order.remove(ident)
            removed.add(ident)
            ops.append("rem")
            continue
        if choice < 0.29:
            bad = rng.choice(list(removed) or [10**6])
            case.equal(prim.remove_callback(bad), False, "remove-unknown")
            ops.append("rem?")
            continue

        new = rng.choice(palette) if rng.random() < 0.8 else current
        stamp = rng.choice([None, None, clock.now + 5, 3, 0])
        expect_time = clock.now
        paths = ["value", "call", "set_value", "update", "stream", "scaled"]
        if kind == "bool":
            paths += ["toggle", "set", "clear"]
        elif kind in prims.INTS:
            paths += ["increment"]
        path = rng.choice(paths)
        if kind == "half" and path in ("update", "stream"):
            # Only values that the encoding can represent.
            if not (math.isnan(new) or abs(new) <= 65504 or math.isinf(new)):
                path = "value"
            else:
                import struct

                new = struct.unpack("<e", struct.pack("<e", new))[0]
        if path == "scaled" and kind in prims.INTS and abs(new) > 2**52:
            path = "value"
        log.clear()
        if path == "value":
            prim.value = new
        elif path == "call":
            prim(new)
        elif path == "set_value":
            if stamp is not None:
                expect_time = stamp
            prim.set_value(new, timestamp_ns=stamp)
        elif path == "update":
            prim.update(prims.model_encode(kind, new, "big"))
        elif path == "stream":
            with BytesIO(prims.model_encode(kind, new, "big")) as stream:
                prim.from_stream(stream)
        elif path == "scaled":
            if kind == "bool":
                prim.value = new
            else:
                prim.scaled = new
        elif path == "toggle":
            new = not current
            prim.toggle()
        elif path == "set":
            new = True
            prim.set()
        elif path == "clear":
            new = False
            prim.clear()
        elif path == "increment":
            low, high = prims.bounds(kind)
            amount = rng.choice([0, 1, -1, 2, 7])
            if not low <= current + amount <= high:
                amount = 0
            new = current + amount
            if stamp is not None:
                expect_time = stamp
            prim.increment(amount, timestamp_ns=stamp)
        ops.append(path)

        old, current = current, store(kind, new)
        changed = not (
            old == current
        )  # NaN compares unequal to itself, like the code's contract
        silent = isinstance(current, float) and math.isnan(current)
        case.expect(
            prims.same(prim.value, current)
            or (prim.value == current),
            "stored",
            f"{path}: {prim.value} {current}",
        )
        case.equal(prim.last_updated_ns, expect_time, "timestamp", path)
        case.equal(
            prim.age_ns(), clock.now - expect_time, "age", path
        )
        case.equal(
            prim.age_ns(now=expect_time + 9), 9, "age-now", path
        )

        want = []
        if changed and not silent:
            for ident in list(order):
                tag, once = listeners[ident]
                want.append(tag)
                if once:
                    order.remove(ident)
                    removed.add(ident)
            notified += len(want)
        else:
            suppressed += 1
        case.equal(
            [x[0] for x in log], want, "listener-calls",
            f"{kind} {path} {old}->{new} (ops {ops[-6:]})",
        )
        for _, got_old, got_new, seen in log:
            case.expect(
                prims.same(got_old, old) and prims.same(got_new, current)
                or (got_old == old and got_new == current),
                "listener-args",
                f"{kind} {path} got ({got_old}, {got_new}) "
                f"want ({old}, {current})",
            )
            case.expect(
                seen == current, "listener-sees-old-value", f"{seen}"
            )
    case.event("notifications", notified)
    case.event("suppressed", suppressed)
    if notified and suppressed:
        case.distinct(kind, ops)
    case.sample(f"{kind}: {ops[:12]}... notified={notified}")


def contexts(case):
    """The managed-context form always removes its listener."""

    rng = case.rng
    kind = rng.choice(["int32", "double", "bool", "uint8"])
    prim = prims.make(kind)
    log = []
    keep = []
    prim.register_callback(lambda old, new: keep.append((old, new)))
    changes = 0
    for i in range(rng.randint(2, 8)):
        fail = rng.random() < 0.5
        try:
            with prim.callback(lambda old, new: log.append((old, new))):
                for _ in range(rng.randrange(4)):
                    prim.value = not prim.value
                    changes += 1
                if fail:
                    raise KeyError(i)
        except KeyError:
            pass
        before = len(log)
        prim.value = not prim.value
        case.equal(len(log), before, "context-leak", f"{kind} fail={fail}")
        case.equal(len(keep), changes + i + 1, "other-listener-count")
    case.equal(before, changes, "context-count")
    case.event("notifications", changes)
    case.distinct(kind, changes, rng.random())


def reentrant(case):
    """
    Listeners that register, remove and assign.  Values are unique, so each
    call identifies the change it belongs to.
    """

    rng = case.rng
    kind = rng.choice(["int64", "uint32", "double"])
    prim = prims.make(kind)
    counter = [0]
    seq = [0]
    calls = []  # (seq, tag, old, new)
    born, died = {}, {}
    idents = {}
    once_tags = set()
    changes = []  # (start, end, old, new)
    scripts = {}
    depth = [0]
    next_tag = [0]

    def tick():
        seq[0] += 1
        return seq[0]

    def assign():
        counter[0] += 1
        old, new = prim.value, counter[0]
        start = tick()
        depth[0] += 1
        index = len(changes)
        changes.append([start, None, old, new])
        prim.value = new
        depth[0] -= 1
        changes[index][1] = tick()

    def add(once, script):
        tag = next_tag[0]
        next_tag[0] += 1
        scripts[tag] = script
        if once:
            once_tags.add(tag)

        def func(old, new):
            calls.append((tick(), tag, old, new))
            if tag in once_tags and tag not in died:
                died[tag] = seq[0]
            todo = scripts[tag]
            if todo:
                act(todo.pop(0), tag)

        born[tag] = tick()
        idents[tag] = prim.register_callback(func, once=once)
        return tag

    def act(action, tag):
        alive = [t for t in idents if t not in died]
        if action == "self" and tag not in died:
            prim.remove_callback(idents[tag])
            died[tag] = tick()
        elif action == "other" and alive:
            victim = rng.choice(alive)
            prim.remove_callback(idents[victim])
            died[victim] = tick()
        elif action == "add":
            add(rng.random() < 0.3, [])
        elif action == "set" and depth[0] < 3:
            assign()

    for _ in range(rng.randint(1, 5)):
        add(
            rng.random() < 0.3,
            [
                rng.choice(["self", "other", "add", "set", "none", "none"])
                for _ in range(rng.randrange(4))
            ],
        )
    for _ in range(rng.randint(2, 8)):
        assign()
        if rng.random() < 0.3:
            act(rng.choice(["other", "add"]), None)
    case.event("reentrant_changes", len(changes))
    case.event("notifications", len(calls))

    by_change = {}
    for at, tag, old, new in calls:
        by_change.setdefault((old, new), []).append((at, tag))
    for start, end, old, new in changes:
        got = by_change.pop((old, new), [])
        tags = [t for _, t in got]
        for tag, when in born.items():
            amount = tags.count(tag)
            case.expect(
                amount <= 1, "called-twice", f"listener {tag} {old}->{new}"
            )
            dead = died.get(tag, 10**9)
            if when < start and dead > end:
                case.expect(
                    amount == 1,
                    "not-called",
                    f"listener {tag} missed {old}->{new}",
                )
            if dead < start or when > end:
                case.expect(
                    amount == 0,
                    "called-while-unregistered",
                    f"listener {tag} {old}->{new}",
                )
        for at, tag in got:
            if tag not in once_tags:
                case.expect(
                    at <= died.get(tag, 10**9),
                    "called-after-removal",
                    f"listener {tag} {old}->{new}",
                )
    case.expect(
        not by_change, "phantom-notification", f"{sorted(by_change)[:3]}"
    )
    for tag in once_tags:
        total = sum(1 for x in calls if x[1] == tag)
        case.expect(total <= 1, "one-shot-twice", f"{tag}: {total}")
    case.distinct(kind, [x[1] for x in calls])
    case.sample(f"{len(changes)} changes, {len(calls)} calls")


def environments(case):
    """Changes made through an environment notify exactly once."""

    rng = case.rng
    env = ChannelEnvironment()
    enum = env.enum("E", "int", {"a": 1, "b": 2, "c": 3})
    env.int_channel("i", "int16", commandable=True)
    env.float_channel("f", "float")
    env.bool_channel("b")
    env.int_channel("e", "uint8", enum=enum)
    env.finalize(strict=False) if rng.random() < 0.5 else None
    logs = {}
    model = {}
    for name in "ifbe":
        chan = env[name][0]
        logs[name] = []
        model[name] = chan.raw.value
        chan.raw.register_callback(
            lambda old, new, name=name: logs[name].append((old, new))
        )
    model["e"] = 0
    names = {"a": 1, "b": 2, "c": 3}
    ops = []
    for _ in range(rng.randint(5, 30)):
        for log in logs.values():
            log.clear()
        target = rng.choice("ifbe")
        before = dict(model)
        if target == "i" and rng.random() < 0.3:
            amount = rng.choice([0, 1, -2, 5])
            if not -32768 <= model["i"] + amount <= 32767:
                amount = 0
            env.add_int("i", amount)
            model["i"] += amount
        elif target == "e":
            member = rng.choice(list(names))
            env.set("e", member)
            model["e"] = names[member]
        else:
            val = {
                "i": lambda: rng.choice([0, 1, -1, 300, 32767, -32768]),
                "f": lambda: rng.choice([0.0, 0.1, 0.5, 3.25, -0.1]),
                "b": lambda: rng.random() < 0.5,
            }[target]()
            if rng.random() < 0.3:
                env.apply({target: val})
            else:
                env.set(target, val)
            model[target] = prims.to_single(val) if target == "f" else val
        ops.append(target)
        case.event("env_writes")
        for name, log in logs.items():
            want = (
                [(before[name], model[name])]
                if before[name] != model[name]
                else []
            )
            case.event("notifications", len(want))
            case.event("suppressed", not want)
            case.equal(log, want, "env-notify", f"{name} {ops[-4:]}")
    case.distinct(ops, sorted(model.items()))


KINDS = {
    "histories": (histories, 5000, 30000),
    "reentrant": (reentrant, 4000, 24000),
    "contexts": (contexts, 800, 4800),
    "environments": (environments, 800, 4800),
}
