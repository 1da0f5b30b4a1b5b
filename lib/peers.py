"""Peer programs and their hosts (used in-process and as real children)."""

import asyncio
import math
import os
from pathlib import Path
import random

from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.subprocess.peer import RuntimepyPeer
from runtimepy.subprocess.program import PeerProgram

from . import envs, prims


class Source:
    """Provides random choices to environment generation."""

    def __init__(self, seed):
        self.rng = random.Random(seed)


def make_model(seed):
    """An environment both sides know about."""
    return envs.build(Source(seed), finalize=False, scaling=False,
                      controls=False)


def make_full(seed):
    """The same environment with finalized names."""
    model = make_model(seed)
    envs.finish(model)
    return model


def commandable(model, seed):
    """Items that belong to the remote side (the rest changes locally)."""
    rng = random.Random(seed + 1)
    result = []
    for name in sorted(model.specs):
        spec = model.specs[name]
        if spec.is_field or spec.is_float or name.startswith("-"):
            continue
        if rng.random() < 0.5:
            result.append(name)
    return result


def local(model, seed):
    """Items that change locally."""
    remote = set(commandable(model, seed))
    return [x for x in sorted(model.specs) if x not in remote]


class Struct(RuntimeStruct):
    """A struct with a random environment."""

    def __init__(self, name, config, markdown=None):
        self.model = make_model(config["seed"])
        self.env = self.model.env
        self.polls = 0
        super().__init__(name, config, markdown=markdown)

    def init_env(self):
        """Nothing to add."""

    def poll(self):
        """Count polls."""
        self.polls += 1

    def ready(self):
        """Finish up once everything is finalized."""
        envs.adopt(self.model)


class Recorder:
    """Records changes to an environment's raw values."""

    def __init__(self, env, names):
        self.history = {}
        self.undo = []
        for name in names:
            chan = env.field_or_channel(name)
            raw = chan.raw
            self.history[name] = items = [raw.value]

            def changed(old, new, items=items):
                del old
                items.append(new)

            self.undo.append((raw, raw.register_callback(changed)))

    def stop(self):
        """Stop recording."""
        for raw, ident in self.undo:
            raw.remove_callback(ident)


def current(env, names):
    """Raw values."""
    return {x: env.field_or_channel(x).raw.value for x in names}


class Common:
    """What both sides offer and do."""

    struct_type = Struct

    def setup(self):
        """Register extra handlers."""

        async def double(outbox, inbox):
            delay = inbox.get("delay")
            if delay is not None:
                await asyncio.sleep(delay)
            outbox["twice"] = [inbox["value"], inbox["value"]]

        async def state(outbox, inbox):
            names = inbox.get("names")
            struct = self.struct
            if names is None:
                names = sorted(struct.model.specs)
            outbox["values"] = current(struct.env, names)
            outbox["polls"] = struct.polls
            outbox["history"] = self.recorder.history
            outbox["problems"] = self.problems
            outbox["counts"] = self.counts
            outbox["peer_config"] = self.peer_config

        self.basic_handler("double", double)
        self.basic_handler("state", state)
        self.problems = []
        self.counts = {}

    def count(self, name, number=1):
        """Count events."""
        self.counts[name] = self.counts.get(name, 0) + number

    def begin(self, ready=True):
        """Begin recording."""
        if ready:
            self.struct.ready()
        self.recorder = Recorder(
            self.struct.env, sorted(self.struct.model.specs)
        )

    async def change(self, rng, rounds):
        """Change local items."""
        struct = self.struct
        model = struct.model
        names = local(model, struct.config["seed"])
        for _ in range(rounds):
            for _ in range(rng.choice([1, 1, 3, 20])):
                if not names:
                    break
                name = rng.choice(names)
                spec = model.specs[name]
                raw = envs.random_raw(rng, spec)
                if rng.random() < 0.1:
                    raw = struct.env.value(
                        name, resolve_enum=False
                    ) if not spec.is_field else raw
                if spec.is_float and not math.isfinite(raw):
                    raw = 0.5
                struct.env.set(name, raw, scaled=False)
                self.count("changes")
            if rng.random() < 0.8:
                await asyncio.sleep(rng.choice([0.0, 0.0, 0.004, 0.05]))

    async def ask(self, rng, rounds, commander):
        """Send requests."""
        for _ in range(rounds):
            kind = rng.random()
            if kind < 0.3:
                data = {"a": rng.randrange(1 << 60), "b": prims.text(rng, 9)}
                if rng.random() < 0.1:
                    data["big"] = "y" * rng.choice([1000, 70000])
                if not await self.loopback(data):
                    self.problems.append(f"loopback {data}")
                self.count("requests")
            elif kind < 0.6:
                value = rng.randrange(1 << 60)
                data = {"value": value}
                if rng.random() < 0.5:
                    data["delay"] = rng.choice([0.0, 0.001, 0.03])
                got = await self.wait_json({"double": data})
                if got.get("double") != {"twice": [value, value]}:
                    self.problems.append(f"double {value}: {got}")
                self.count("requests")
            elif kind < 0.65:
                extra = f"unknown{rng.randrange(1000)}"
                got = await self.wait_json({extra: {"a": 1}})
                if extra not in got.get("keys_ignored", []):
                    self.problems.append(f"{extra}: {got}")
                self.count("requests")
            else:
                await commander.step(rng)
            if rng.random() < 0.4:
                await asyncio.sleep(rng.choice([0.0, 0.005, 0.03]))


class Commander:
    """Sends commands to the remote and knows what must happen."""

    def __init__(self, iface, seed, name):
        self.iface = iface
        self.model = make_full(seed)
        self.names = commandable(self.model, seed)
        self.name = name
        self.seed = seed
        self.later = {}

    def value(self, rng, spec):
        """The text of a value, the raw value and how it's displayed."""
        model = self.model
        raw = envs.random_raw(rng, spec)
        if spec.enum:
            items = model.enums[spec.enum]["items"]
            text = rng.choice(sorted(items))
            return text, items[text]
        if spec.is_bool:
            return ("true" if raw else "false"), raw
        return str(raw), raw

    async def step(self, rng):
        """Send one command."""

        iface = self.iface
        model = self.model
        name = rng.choice(self.names + ["missing.channel"])
        environment = rng.choice(["default", self.name, "nothing"])
        spec = model.specs.get(name)
        kind = rng.choice(["set", "set", "get", "toggle"])
        force = rng.random() < 0.4
        ok = environment != "nothing" and spec is not None
        text, raw = "1", None
        if spec is not None:
            text, raw = self.value(rng, spec)
            # These are parsed as arguments.
            if text.startswith("-"):
                kind = "get"
        command = kind + (" -f" if force else "") + f" {name}"
        if kind == "set":
            command += f" {text}"
        want = None
        if ok:
            if kind == "get":
                want = str(model.value(name))
            elif not spec.commandable and not force:
                ok = False
            elif kind == "toggle":
                ok = spec.is_bool
        iface.count("commands")
        if kind != "get" and ok and rng.random() < 0.4:
            # Sent in the background, the order is kept.
            iface.count("background")
            target = rng.choice([None, self.name, "nothing", "nothing"])
            if target:
                command += f" -e {target}"
            iface.peer.command(command)
            environment = None
            ok = target != "nothing"
        if ok and kind == "set":
            model.put(name, raw)
        elif ok and kind == "toggle":
            model.put(name, not model.get(name))
        if environment is None:
            # The order to other commands isn't defined.
            self.later[name] = True
            self.names.remove(name)
            return
        result = await iface.channel_command(
            command, environment=environment
        )
        if bool(result.success) != ok:
            iface.problems.append(
                f"'{command}' ({environment}): {result}, must be {ok}"
            )
        elif want is not None and result.reason != want:
            iface.problems.append(
                f"'{command}' ({environment}): {result}, must be {want}"
            )

    def check(self, values):
        """Compare final values."""
        result = []
        for name in commandable(self.model, self.seed):
            if values[name] != self.model.get(name):
                result.append(
                    f"{name}: {values[name]}, must be {self.model.get(name)}"
                )
        return result


class Child(Common, PeerProgram):
    """A peer program."""

    def struct_pre_finalize(self):
        """Prepare."""
        super().struct_pre_finalize()
        self.setup()
        self.stages = []

    def pre_environment_exchange(self):
        """Early changes."""
        self.struct.ready()
        struct = self.struct
        rng = random.Random(struct.config["seed"] + 3)
        for name in local(struct.model, struct.config["seed"]):
            if rng.random() < 0.5:
                raw = envs.random_raw(rng, struct.model.specs[name])
                if not isinstance(raw, float) or math.isfinite(raw):
                    struct.env.set(name, raw, scaled=False)
        self.begin(False)
        self.stages.append("early")

    async def main(self, argv):
        """Program entry."""

        self.stages.append("main")
        config = self.struct.config
        self.counts["argv"] = list(argv[1:])
        if config.get("fail"):
            raise ValueError("planned")
        work = asyncio.create_task(self.work())
        ending = asyncio.create_task(self.got_eof.wait())
        await asyncio.wait([work, ending],
                           return_when=asyncio.FIRST_COMPLETED)
        if not self.got_eof.is_set():
            # Report problems.
            await work
            self.counts["done"] = True
            await ending
        elif work.done():
            work.exception()
        else:
            work.cancel()
            await asyncio.wait([work])
        self.stages.append("eof")

    async def work(self):
        """What this program does."""

        config = self.struct.config
        rng = random.Random(config["seed"] + 7)
        if rng.random() < 0.5:
            await asyncio.sleep(rng.choice([0.0, 0.4]))
            await self.share_config({"config": config["extra"]})
            self.count("configs")
        commander = Commander(self, config["host"]["seed"],
                              config["host"]["name"])
        await asyncio.gather(
            self.change(rng, config["changes"]),
            self.ask(rng, config["asks"], commander),
        )
        for _ in range(config.get("junk", 0)):
            self.stream_output.write(rng.choice(
                [b"Traceback (most recent call last):\n", b"x",
                 rng.randbytes(rng.randint(1, 40))]
            ))
            self.stream_output.flush()
            await asyncio.sleep(rng.choice([0.0, 0.03]))
        if config["asks"]:
            # Everything sent before is done by the time this is.
            while not self.outgoing_commands.empty():
                await asyncio.sleep(0.01)
            await asyncio.sleep(0.3)
            got = await self.wait_json({"state": {}})
            self.problems += commander.check(got["state"]["values"])

    async def cleanup(self):
        """Leave a mark."""
        self.stages.append("cleanup")
        mark = self.struct.config.get("mark")
        if mark:
            Path(mark).write_text(f"{os.getpid()} {self.stages}\n")


class Wrapped(Child):
    """Uses a part of the host's configuration."""

    def __init__(self, name, config, markdown=None):
        super().__init__(name, config["child"], markdown=markdown)


class Host(Common, RuntimepyPeer):
    """The other side."""

    def struct_pre_finalize(self):
        """Prepare."""
        self.setup()
