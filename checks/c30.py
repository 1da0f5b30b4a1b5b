"""C30: Telnet and device text protocols."""

import asyncio
import codecs

from checks.c16 import Transport as _Transport
from lib import nets, vloop

from runtimepy.net.tcp.protocol import QueueProtocol
from runtimepy.net.tcp.scpi import ScpiConnection
from runtimepy.net.tcp.telnet import BasicTelnet, Telnet, TelnetCode, TelnetNvt
from runtimepy.net.tcp.telnet.np_05b import Np05bConnection

PROPERTY = "C30"
RULE = (
    "random telnet streams (text, every command, options, escapes, control "
    "characters, undefined commands) cut at every kind of place; SCPI and "
    "power-strip devices simulated on logical time with random reply delays, "
    "segmentation, unsolicited and missing replies under concurrent "
    "commands; non-trivial = distinct stream or command history"
)
REQUIRED = {"streams": 400, "splits": 1500, "split_commands": 300,
            "text_bytes": 20000, "commands": 1000, "options": 1000,
            "escapes": 800, "nvts": 1500, "undefined": 300, "texts": 200,
            "broken_utf8": 40, "api_sends": 800, "scpi_commands": 1500,
            "scpi_replies": 800, "scpi_timeouts": 150, "scpi_late": 60,
            "scpi_unsolicited": 60, "scpi_concurrent": 300,
            "scpi_silent": 100, "outlet_commands": 300, "outlet_set": 120,
            "outlet_refused": 20, "outlet_lost": 20, "outlet_reads": 300,
            "outlet_all": 20, "outlet_denied": 20, "scpi_blank": 500, "outlet_console": 50}


class Transport(_Transport):
    """Tells a peer about what's written."""

    peer = None

    def write(self, data):
        super().write(data)
        if self.peer is not None:
            self.peer(bytes(data))


def tokens(case, count):
    """A random telnet stream as (bytes, meaning) tokens."""

    rng = case.rng
    out = []
    for _ in range(count):
        kind = rng.choice(
            ["text", "text", "text", "command", "option", "escape", "nvt",
             "bad"]
        )
        if kind == "text":
            data = bytes(
                rng.choice(
                    [rng.randint(32, 126), rng.randint(14, 254),
                     rng.choice([1, 6, 10, 13, 9, 127, 240, 250, 253])]
                )
                for _ in range(rng.randint(1, 12))
            )
            out.append((data, ("text", data)))
        elif kind == "command":
            code = rng.choice(
                [x for x in TelnetCode
                 if not 251 <= x <= 254 and x != TelnetCode.IAC]
            )
            out.append((bytes([255, code]), ("command", int(code))))
            case.event("commands")
        elif kind == "option":
            code = rng.randint(251, 254)
            option = rng.choice([0, 1, 10, 13, 24, 100, 253, 254, 255, 7])
            out.append((bytes([255, code, option]),
                        ("option", (code, option))))
            case.event("options")
        elif kind == "escape":
            out.append((b"\xff\xff", ("text", b"\xff")))
            case.event("escapes")
        elif kind == "nvt":
            code = rng.choice([0, 7, 8, 11, 12])
            out.append((bytes([code]), ("nvt", code)))
            case.event("nvts")
        else:
            code = rng.choice([0, 1, 13, 65, 200, 239])
            out.append((bytes([255, code]), ("undefined", code)))
            case.event("undefined")
    return out


def meaning(stream):
    """What a stream must be taken for."""

    result = {"text": b"", "command": [], "option": [], "nvt": []}
    for _, (kind, what) in stream:
        if kind == "text":
            result["text"] += what
        elif kind != "undefined":
            result[kind].append(what)
    return result


def recorder(base, seen):
    """A connection class that records everything."""

    class Recorder(base):
        async def process_telnet_message(self, data):
            seen["text"] += data
            seen["calls"] += 1
            return True

        async def process_text(self, data):
            return True

        async def process_command(self, code):
            seen["command"].append(int(code))

        async def handle_nvt(self, action):
            seen["nvt"].append(int(action))

        async def process_option(self, code, option, stream):
            seen["option"].append((int(code), int(option)))

    return Recorder


def cut(case, rng, data, stream):
    """Pieces of a stream, often cutting sequences apart."""

    if rng.random() < 0.4 and data:
        # Cut inside of sequences.
        places, pos = [], 0
        for raw, _ in stream:
            if raw[:1] == b"\xff" and rng.random() < 0.5:
                places.append(pos + rng.randint(1, len(raw) - 1))
                case.event("split_commands")
            pos += len(raw)
        places = [0] + places + [len(data)]
        return [data[a:b] for a, b in zip(places, places[1:])]
    return [x for x in nets.segments(rng, data)]


async def feed(cls, pieces, pause):
    """Let a connection process pieces of a stream."""

    transport, protocol = Transport(), QueueProtocol()
    protocol.connection_made(transport)
    conn = cls(transport, protocol)
    task = asyncio.create_task(conn.process())
    await conn.initialized.wait()
    for piece in pieces:
        protocol.data_received(piece)
        if pause is not None:
            await asyncio.sleep(pause)
    protocol.connection_lost(None)
    await task
    return conn


def telnet(case):
    """One stream, any segmentation."""

    rng = case.rng
    stream = tokens(case, rng.randint(1, 60))
    data = b"".join(x[0] for x in stream)
    want = meaning(stream)
    case.event("streams")
    case.event("text_bytes", len(want["text"]))
    for i in range(rng.randint(3, 6)):
        pieces = [data] if i == 0 else cut(case, rng, data, stream)
        seen = {"text": b"", "command": [], "option": [], "nvt": [],
                "calls": 0}
        base = rng.choice([Telnet, BasicTelnet])
        vloop.run(
            feed(recorder(base, seen), pieces, rng.choice([None, 0, 0.01])),
            grace=0,
        )
        case.event("splits")
        for key, value in want.items():
            case.equal(
                seen[key], value, "telnet",
                f"{key} of {data[:60]!r} in pieces of "
                f"{[len(x) for x in pieces][:20]}",
            )
    case.distinct(data)
    case.sample(repr(data[:60]))


def texts(case):
    """Text handlers get the text."""

    rng = case.rng
    raw = b""
    for _ in range(rng.randint(1, 8)):
        raw += "".join(
            rng.choice("abc 123\r\n\täß漢字🎉") for _ in range(
                rng.randint(1, 30))
        ).encode()
        if rng.random() < 0.2:
            raw += rng.choice([b"\x80", b"\xe6\x41", b"\xc3", b"\xf0\x9f"])
            case.event("broken_utf8")
    want = codecs.getincrementaldecoder("utf-8")("replace").decode(raw)
    for _ in range(3):
        pieces = nets.segments(rng, raw)
        got = []

        class Text(BasicTelnet):
            async def process_text(self, data):
                got.append(data)
                return True

        vloop.run(feed(Text, pieces, rng.choice([None, 0])), grace=0)
        case.equal(
            "".join(got), want, "telnet-text",
            f"pieces {[len(x) for x in pieces][:20]}",
        )
        case.event("texts")
    case.distinct(raw)


def sends(case):
    """What's sent with one end's methods is what the other end gets."""

    rng = case.rng

    async def body():
        seen = {"text": b"", "command": [], "option": [], "nvt": [],
                "calls": 0}
        cls = recorder(BasicTelnet, seen)
        transport, protocol = Transport(), QueueProtocol()
        protocol.connection_made(transport)
        near = cls(transport, protocol)
        want = {"text": b"", "command": [], "option": [], "nvt": []}
        for _ in range(rng.randint(1, 30)):
            case.event("api_sends")
            kind = rng.choice(["text", "command", "option", "nvt"])
            if kind == "text":
                text = "".join(rng.choice("ab\r\n ß漢") for _ in range(5))
                near.send_text(text)
                want["text"] += text.encode()
            elif kind == "command":
                code = rng.choice([TelnetCode.NOP, TelnetCode.IP,
                                   TelnetCode.AYT, TelnetCode.GA])
                near.send_command(code)
                want["command"].append(int(code))
            elif kind == "option":
                code = rng.choice([TelnetCode.WILL, TelnetCode.WONT,
                                   TelnetCode.DO, TelnetCode.DONT])
                option = rng.randrange(256)
                near.send_option(code, option)
                want["option"].append((int(code), option))
            else:
                code = rng.choice([TelnetNvt.BEL, TelnetNvt.BS])
                near.send_binary(bytes([code]))
                want["nvt"].append(int(code))
        data = bytes(transport.written)
        await feed(cls, nets.segments(rng, data), 0)
        for key, value in want.items():
            case.equal(seen[key], value, "telnet-sends", key)
        case.distinct(data)

    vloop.run(body(), grace=0)


class Device:
    """An SCPI device on logical time."""

    def __init__(self, case, transport, protocol):
        self.case = case
        self.protocol = protocol
        self.rng = case.rng
        self.log = []  # (time, command)
        self.plans = {}
        self.pending = b""
        self.serial = 0
        transport.peer = self.receive

    def receive(self, data):
        loop = asyncio.get_running_loop()
        self.pending += data
        *lines, self.pending = self.pending.split(b"\n")
        for line in lines:
            text = line.decode()
            self.log.append((loop.time(), text))
            if text == "*IDN?":
                delay, reply = 0.01, "ACME,1,2"
            else:
                delay, reply = self.plans.get(text, (None, None))
            if delay is not None:
                end = self.rng.choice(["\n", "\r\n", ""])
                start = self.rng.choice(["", "", "\r\n", "\n"])
                if start:
                    self.case.event("scpi_blank")
                loop.call_later(
                    delay, self.protocol.data_received,
                    (start + reply + end).encode(),
                )


def scpi(case):
    """Concurrent commands to a device."""

    rng = case.rng

    async def body():
        loop = asyncio.get_running_loop()
        transport, protocol = Transport(), QueueProtocol()
        protocol.connection_made(transport)
        device = Device(case, transport, protocol)
        conn = ScpiConnection(transport, protocol)
        task = asyncio.create_task(conn.process())
        await conn.initialized.wait()
        case.expect(not conn.disabled, "scpi-init")
        jobs = []
        ends = []
        # A command's late reply may arrive any time until here.
        quiet = [0.0]
        active = [0]

        async def command(name, delay, kwargs):
            await asyncio.sleep(rng.choice([0, 0.0003, 0.7]) * rng.random())
            query = kwargs.get("query", False)
            text = name + ("?" if query else "")
            timeout = kwargs.get("timeout", 1.0)
            reply = f"reply to {name}"
            if delay is not None:
                device.plans[text] = (delay, reply)
            if active[0]:
                case.event("scpi_concurrent")
            active[0] += 1
            try:
                got = await conn.send_command(name, **kwargs)
            finally:
                active[0] -= 1
            sent = [at for at, x in device.log if x == text]
            case.event("scpi_commands")
            case.equal(len(sent), 1, "scpi-sent", text)
            waits = query or kwargs.get("response", True)
            done = loop.time()
            ends.append((sent[0], done, text))
            if not waits:
                case.equal(got, "", "scpi-unawaited", text)
                case.expect(done == sent[0], "scpi-unawaited", text)
                case.event("scpi_silent")
            elif delay is not None and delay < timeout:
                case.event("scpi_replies")
                case.equal(got, reply, "scpi-reply",
                           f"{text} delay={delay} timeout={timeout}")
                case.expect(
                    abs(done - sent[0] - delay) < 1e-6, "scpi-time", text
                )
            else:
                case.event("scpi_timeouts")
                case.equal(got, "", "scpi-reply",
                           f"{text} delay={delay} timeout={timeout}")
                case.expect(
                    abs(done - sent[0] - timeout) < 1e-6,
                    "scpi-timeout-time", text,
                )
                if delay is not None:
                    # The reply comes before the next command.
                    quiet[0] = sent[0] + delay
                    case.event("scpi_late")

        rounds = rng.randint(2, 8)
        serial = 0
        for _ in range(rounds):
            width = rng.choice([1, 1, 2, 4])
            jobs = []
            for _ in range(width):
                serial += 1
                timeout = rng.choice([0.1, 1.0, 3.0])
                delay = rng.choice([0.0, 0.01, 0.05, 0.3, None]) or None
                kwargs = {}
                if rng.random() < 0.7:
                    kwargs["timeout"] = timeout
                else:
                    timeout = 1.0
                roll = rng.random()
                if roll < 0.3:
                    kwargs["query"] = True
                    if rng.random() < 0.3:
                        kwargs["response"] = rng.random() < 0.3
                elif roll < 0.5:
                    kwargs["response"] = False
                    # (Replies nobody waits for come before what's next.)
                    delay = None
                if rng.random() < 0.3:
                    kwargs["log"] = True
                # Replies that are late can only be told apart when no other
                # command is waiting.
                if delay is not None and delay > timeout and width > 1:
                    delay = None
                if delay is None and width == 1 and rng.random() < 0.5:
                    if kwargs.get("response", True):
                        delay = timeout + 0.2
                jobs.append(command(f"C{serial}", delay, kwargs))
            await asyncio.gather(*jobs)
            if quiet[0] > loop.time():
                await asyncio.sleep(quiet[0] - loop.time() + 0.001)
            if rng.random() < 0.25:
                for _ in range(rng.randint(1, 3)):
                    protocol.data_received(
                        rng.choice([b"event 1\n", b"a\nb\nc\n", b"\n"])
                    )
                    case.event("scpi_unsolicited")
                await asyncio.sleep(0.001)
        # One at a time.
        ends.sort()
        for first, second in zip(ends, ends[1:]):
            case.expect(
                first[1] <= second[0] + 1e-9, "scpi-interleaved",
                f"{first} {second}",
            )
        case.expect(not conn.disabled, "scpi-disabled")
        case.distinct(*[x[1] + str(x[0]) for x in device.log])
        case.sample(" ".join(x[1] for x in device.log)[:100])
        protocol.connection_lost(None)
        await task

    vloop.run(body(), grace=0, limit=1000.0)


class Strip:
    """A power strip that's controlled with text commands."""

    def __init__(self, case, transport, protocol):
        self.case = case
        self.rng = case.rng
        self.protocol = protocol
        self.states = [case.rng.random() < 0.5 for _ in range(5)]
        self.broken = {case.rng.randrange(5)} if case.rng.random() < 0.4 else (
            set()
        )
        self.pending = b""
        self.lose = 0
        self.deny = 0
        self.log = []
        self.out = []
        self.prompt = case.rng.choice([">", ""])
        self.echo_end = case.rng.choice(["\r\n", "\r\n", ""])
        self.busy = None
        transport.peer = self.receive

    def start(self):
        self.say("Synaccess Telnet V6.2\r\n" + self.prompt)

    def say(self, text):
        """Output in pieces of any size."""
        self.out.append(text.encode())
        if self.busy is None:
            self.busy = asyncio.create_task(self.flush())

    async def flush(self):
        rng = self.rng
        while self.out:
            data = b"".join(self.out)
            self.out.clear()
            for piece in nets.segments(rng, data):
                if piece:
                    await asyncio.sleep(rng.choice([0, 0, 0.001, 0.02]))
                    self.protocol.data_received(piece)
        self.busy = None

    def receive(self, data):
        self.pending += data
        *lines, self.pending = self.pending.split(b"\n")
        for line in lines:
            self.handle(line.decode().strip())

    def handle(self, line):
        self.log.append(line)
        parts = line.split(" ")
        self.say(line + self.echo_end)
        reply = "$A0"
        if parts[0] == "$A3":
            index = int(parts[1]) - 1
            if index in self.broken or not 0 <= index < 5:
                reply = "$AF"
            else:
                self.states[index] = parts[2] == "1"
        elif parts[0] == "$A7":
            for i in range(5):
                if i not in self.broken:
                    self.states[i] = parts[1] == "1"
        elif parts[0] == "$A5":
            reply += "," + "".join(
                "1" if x else "0" for x in reversed(self.states)
            )
            if self.deny:
                self.deny -= 1
                self.case.event("outlet_denied")
                reply = "$AF"
        if self.lose and parts[0] != "$A5":
            self.lose -= 1
            self.case.event("outlet_lost")
            if not self.echo_end:
                self.say("\r\n")
            return
        self.say(reply + "\r\n" + self.prompt)


def outlets(case):
    """A power strip's outlets."""

    rng = case.rng

    async def body():
        transport, protocol = Transport(), QueueProtocol()
        protocol.connection_made(transport)
        strip = Strip(case, transport, protocol)
        conn = Np05bConnection(transport, protocol)
        task = asyncio.create_task(conn.process())
        strip.start()
        try:
            await asyncio.wait_for(conn.initialized.wait(), 20.0)
        except asyncio.TimeoutError:
            case.fail("outlet-init", f"no outlet status: {strip.log}")

        def known():
            case.event("outlet_reads")
            got = [conn.env.value(f"outlet.{i + 1}.on") for i in range(5)]
            case.equal(got, strip.states, "outlet-state",
                       f"after {strip.log[-3:]}")

        known()

        async def one(index, state):
            case.event("outlet_commands")
            got = await conn.set_outlet_state(index, state)
            if not 1 <= index <= 5:
                case.equal(got, False, "outlet-range", str(index))
                case.event("outlet_refused")
                return
            case.equal(
                got, strip.states[index - 1] == state, "outlet-result",
                f"outlet {index} to {state}: {strip.log[-4:]}",
            )
            case.event("outlet_set" if got else "outlet_refused")

        for _ in range(rng.randint(2, 10)):
            roll = rng.random()
            if rng.random() < 0.15:
                strip.lose = 1
            if roll < 0.5:
                await one(rng.randint(0, 6), rng.random() < 0.5)
            elif roll < 0.7:
                # (Different outlets, what's read is for all of them.)
                picks = rng.sample(range(1, 6), rng.randint(2, 3))
                await asyncio.gather(
                    *[one(x, rng.random() < 0.5) for x in picks]
                )
            elif roll < 0.9:
                index, state = rng.randint(1, 5), rng.random() < 0.5
                prior = strip.states[index - 1]
                case.event("outlet_console")
                if rng.random() < 0.4:
                    result = conn.command.command(f"toggle outlet.{index}.on")
                    state = not prior
                else:
                    result = conn.command.command(
                        f"set outlet.{index}.on {state}"
                    )
                case.expect(bool(result), "outlet-console", str(result))
                await conn.process_command_queue()
                if index - 1 not in strip.broken:
                    case.equal(
                        strip.states[index - 1], state, "outlet-console",
                        f"{index} {strip.log[-4:]}",
                    )
            else:
                name = rng.choice(["all_on", "all_off"])
                conn.command.command(f"custom {name}")
                await conn.process_command_queue()
                case.event("outlet_all")
                for i, state in enumerate(strip.states):
                    if i not in strip.broken:
                        case.equal(state, name == "all_on", "outlet-all")
            strip.lose = 0
            if rng.random() < 0.15:
                # What's known doesn't change.
                strip.deny = 1
                await conn.request_outlet_status()
            await asyncio.sleep(0.5)
            case.expect(not conn.disabled, "outlet-disabled",
                        str(strip.log[-4:]))
            known()
        case.distinct(*strip.log)
        case.sample(" ".join(strip.log)[:100])
        conn.env["auto_restart"] = False
        protocol.connection_lost(None)
        await task

    vloop.run(body(), grace=0, limit=1000.0)


KINDS = {
    "telnet": (telnet, 500, 15000),
    "text": (texts, 120, 4000),
    "send": (sends, 80, 3000),
    "scpi": (scpi, 250, 8000),
    "outlets": (outlets, 150, 5000),
}
