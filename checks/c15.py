"""C15: JSON requests get their own responses, under any concurrency."""

import asyncio
import heapq
import json
import logging

from lib import nets, vloop

from runtimepy.net.arbiter.tcp.json import (
    TcpJsonMessageConnection,
    UdpJsonMessageConnection,
)
from runtimepy.net.stream.json import JsonMessageConnection

PROPERTY = "C15"
RULE = (
    "two JSON endpoints joined by a link that delays, re-orders, duplicates "
    "and drops messages on logical time (and by real TCP/UDP loopback), both "
    "sides issuing concurrent requests with unique tokens, failing handlers, "
    "unknown keys and unsolicited replies; every delivery, handler call and "
    "request outcome is matched by token and identifier; non-trivial = "
    "distinct schedule with at least two requests in flight"
)
REQUIRED = {"requests": 3000, "answered": 1500, "timeouts": 100,
            "dropped": 100, "duplicated": 100, "late": 50,
            "handler_errors": 100, "unknown": 50, "commands": 200,
            "overlap": 500, "cancelled": 30, "both_sides": 200,
            "tcp_requests": 200, "udp_requests": 100, "unsolicited": 50,
            "invalid": 50, "dynamic": 50}
LOG = logging.getLogger("verif.c15")
LOG.propagate = False
LOG.addHandler(logging.NullHandler())


def answer(token, who):
    """What a handler answers to a token."""
    return {"token": token, "who": who, "echo": f"{who}/{token}"}


def decode(frame):
    """Decode a link-level frame."""
    size = int.from_bytes(frame[:4], "big")
    assert size == len(frame) - 4, frame
    return json.loads(frame[4:])


class Mixin:
    """Handlers with observable invocations."""

    def setup(self, case, name):
        self.case = case
        self.name = name
        self.calls = {}
        self.basic_handler("work", self.work)
        self.basic_handler("nested/{part}/end", self.dynamic)
        self.env.int_channel("fixed", kind="uint32")
        self.env.int_channel("target", kind="uint32", commandable=True)
        self.env.set("fixed", 1000 + (name == "right"))

    def called(self, token):
        self.calls[token] = self.calls.get(token, 0) + 1

    async def work(self, outbox, inbox):
        if "echo" in inbox:
            # Handlers also see replies.
            self.called("reply-" + str(inbox["token"]))
            return
        token = inbox["token"]
        self.called(token)
        for _ in range(inbox.get("spin", 0)):
            await asyncio.sleep(0)
        if inbox.get("nap"):
            await asyncio.sleep(inbox["nap"])
        if inbox.get("error"):
            raise {"key": KeyError, "value": ValueError, "rt": RuntimeError}[
                inbox["error"]
            ](token)
        outbox.update(answer(token, self.name))

    async def dynamic(self, outbox, inbox):
        if "echo" not in inbox:
            outbox.update(answer(inbox["part"], self.name))


class Memory(Mixin, JsonMessageConnection):
    """An endpoint whose outgoing frames are handed to a link."""

    outgoing = None

    def init(self):
        super().init()
        self.list_handler.setLevel(100)

    def send_binary(self, data):
        self.outgoing(bytes(data))


class Link:
    """One direction of a hostile link."""

    def __init__(self, case, name, target, chaos):
        self.case = case
        self.name = name
        self.target = target
        self.chaos = chaos
        self.queue = []
        self.count = 0
        self.sent = []  # (time, message)
        self.delivered = []  # (start, end, message)
        self.wake = asyncio.Event()
        self.loop = asyncio.get_running_loop()

    def push(self, frame):
        """Called for every frame the sender writes."""

        rng = self.case.rng
        message = decode(frame)
        self.sent.append((self.loop.time(), message))
        copies = 1
        if rng.random() < self.chaos["drop"]:
            copies = 0
            self.case.event("dropped")
        elif rng.random() < self.chaos["dup"]:
            copies = rng.choice([2, 2, 3])
            self.case.event("duplicated")
        for _ in range(copies):
            self.insert(frame, self.delay())

    def delay(self):
        rng = self.case.rng
        if self.chaos["delay"] and rng.random() < 0.5:
            if rng.random() < 0.1:
                return rng.uniform(0, 10)
            return rng.uniform(0, self.chaos["delay"])
        return 0

    def insert(self, frame, delay):
        self.count += 1
        heapq.heappush(
            self.queue, (self.loop.time() + delay, self.count, frame)
        )
        self.wake.set()

    async def pump(self):
        """Deliver frames one at a time, like a connection's read task."""

        while True:
            while not self.queue:
                self.wake.clear()
                await self.wake.wait()
            when = self.queue[0][0]
            now = self.loop.time()
            if when > now:
                self.wake.clear()
                try:
                    await asyncio.wait_for(self.wake.wait(), when - now)
                except asyncio.TimeoutError:
                    pass
                continue
            frame = heapq.heappop(self.queue)[2]
            start = self.loop.time()
            entry = [start, None, decode(frame)]
            self.delivered.append(entry)
            if not await self.target.process_binary(frame):
                self.case.fail("process", "message processing reported failure")
            entry[1] = self.loop.time()


class Request:
    """One request and its outcome."""

    def __init__(self, case, conn, peer, link, index):
        rng = case.rng
        self.case = case
        self.conn = conn
        self.peer = peer
        self.link = link
        self.token = f"{conn.name}-{index}"
        self.kind = rng.choices(
            ["work", "error", "unknown", "command", "set", "loopback",
             "invalid", "dynamic"],
            [10, 2, 2, 3, 2, 2, 1, 1],
        )[0]
        self.timeout = rng.choice([0.05, 0.3, 1.0, 3.0, 5.0])
        self.state = "new"
        self.result = None
        self.ident = None
        self.start = self.end = None

    def message(self):
        rng = self.case.rng
        work = {"token": self.token, "spin": rng.choice([0, 0, 1, 3])}
        if rng.random() < 0.3:
            work["nap"] = rng.choice([0.01, 0.1, 0.5, 2.0])
        if self.kind == "error":
            work["error"] = rng.choice(["key", "value", "rt"])
        result = {"work": work}
        if self.kind == "unknown":
            result["zz-unknown"] = {"a": 1}
            result["aa-unknown"] = rng.choice([None, 5, "x", [1]])
        elif self.kind == "invalid":
            result[rng.choice(["loopback", "channel_command", "find_file"])] = (
                rng.choice([5, None, "text", [1], {"is_request": "maybe"}])
            )
        elif self.kind == "dynamic":
            result[f"nested/{self.token}/end"] = {}
        return result

    async def run(self):
        conn, loop = self.conn, asyncio.get_running_loop()
        self.start = loop.time()
        before = len(self.link.sent) if self.link else 0
        self.state = "waiting"
        try:
            if self.kind == "command":
                coro = conn.channel_command("get fixed")
                self.timeout = 3.0
            elif self.kind == "set":
                self.value = self.case.rng.randrange(10**6)
                coro = conn.channel_command(
                    self.case.rng.choice(
                        [f"set target {self.value}", "set target nope",
                         "set fixed 1", "bogus", "get nothing"]
                    )
                )
                self.timeout = 3.0
            elif self.kind == "loopback":
                coro = conn.loopback(
                    {"data": self.token}, timeout=self.timeout
                )
            else:
                data = self.message()
                keep = json.dumps(data)
                coro = conn.wait_json(data, timeout=self.timeout)
            task = asyncio.ensure_future(coro)
            await asyncio.sleep(0)
            if self.link is not None:
                self.link.find(self, before)
            self.result = await task
            self.state = "done"
            if self.kind not in ("command", "set", "loopback"):
                self.case.equal(json.dumps(data), keep, "data-changed")
        except AssertionError as exc:
            self.state = "timeout"
            self.result = exc
        except KeyError as exc:
            # A command whose reply has no result.
            self.state = "error"
            self.result = exc
        except asyncio.CancelledError:
            task.cancel()
            self.state = "cancelled"
            await asyncio.sleep(0)
        finally:
            self.end = loop.time()

    def verify_result(self):
        """The outcome of an answered request."""

        case, result = self.case, self.result
        if self.state != "done":
            return
        case.event("answered")
        who = self.peer.name
        if self.kind == "command":
            case.equal(
                (result.success, result.reason),
                (True, str(1000 + (who == "right"))),
                "command-result",
                self.token,
            )
            case.event("commands")
        elif self.kind == "set":
            case.expect(result.success in (True, False), "command-result")
            case.expect(
                result.success == (result.reason is None),
                "command-result",
                f"{result}",
            )
            case.event("commands")
        elif self.kind == "loopback":
            case.equal(result, True, "loopback", self.token)
        elif self.kind == "error":
            case.event("handler_errors")
            case.expect(
                "work" not in result or not result["work"].get("echo"),
                "failed-handler",
                f"{result}",
            )
        else:
            want = {"work": answer(self.token, who)}
            got = dict(result)
            if self.kind == "unknown":
                want["keys_ignored"] = ["aa-unknown", "zz-unknown"]
                case.event("unknown")
            elif self.kind == "dynamic":
                want["nested/{part}/end"] = answer(self.token, who)
                case.event("dynamic")
            elif self.kind == "invalid":
                case.event("invalid")
                for key in ("loopback", "channel_command", "find_file"):
                    got.pop(key, None)
            case.equal(got, want, "response", self.token)


def find(self, request, before):
    """Learn the identifier that a request was sent with."""

    found = [x for _, x in self.sent[before:] if "__id__" in x]
    for message in found:
        ident = message["__id__"]
        if ident in self.known:
            continue
        work = message.get("work")
        if request.kind in ("command", "set"):
            ok = message.get("channel_command", {}).get("is_request")
        elif request.kind == "loopback":
            ok = message.get("loopback") == {"data": request.token}
        else:
            ok = work and work["token"] == request.token and "echo" not in work
        if ok:
            self.known[ident] = request
            request.ident = ident
            return
    request.case.fail("not-sent", request.token)


Link.find = find


def memory(case):
    """Two endpoints joined by a hostile link."""

    rng = case.rng
    chaos = {
        "drop": rng.choice([0, 0, 0.1, 0.3]),
        "dup": rng.choice([0, 0, 0.1, 0.3]),
        "delay": rng.choice([0, 0.05, 1.0, 4.0]),
    }

    async def main():
        loop = asyncio.get_running_loop()
        left, right = Memory(LOG), Memory(LOG)
        links = {}
        for conn, peer, name in (
            (left, right, "left"), (right, left, "right")
        ):
            conn.setup(case, name)
            links[name] = Link(case, name, peer, chaos)
            links[name].known = {}
            conn.outgoing = links[name].push
        left.env.finalize(strict=False)
        right.env.finalize(strict=False)
        pumps = [asyncio.ensure_future(x.pump()) for x in links.values()]

        requests, tasks = [], []
        total = rng.randrange(2, 25)
        sides = rng.choice([["left"], ["left", "right"], ["left", "right"]])
        for i in range(total):
            side = rng.choice(sides)
            conn, peer = (left, right) if side == "left" else (right, left)
            request = Request(case, conn, peer, links[side], i)
            requests.append(request)
            tasks.append(asyncio.ensure_future(request.run()))
            case.event("requests")
            if rng.random() < 0.4:
                await asyncio.sleep(rng.choice([0, 0.001, 0.1, 1.0]))
            if sum(not x.done() for x in tasks) > 1:
                case.event("overlap")
            if rng.random() < 0.1:
                victim = rng.choice(tasks)
                if not victim.done():
                    victim.cancel()
            if rng.random() < 0.2:
                # A reply that nobody waits for (anymore).
                ended = [
                    x for x in requests if x.ident is not None and x.end
                ]
                message = {"keys_ignored": ["a"]}
                if ended:
                    request = rng.choice(ended)
                    message = {
                        "__id__": request.ident,
                        "work": answer("none", "none"),
                    }
                    if request.state == "cancelled":
                        continue
                    side = "right" if request.conn is left else "left"
                frame = json.dumps(message).encode()
                links[side].insert(
                    len(frame).to_bytes(4, "big") + frame, 0
                )
                case.event("unsolicited")
        if len(sides) > 1:
            case.event("both_sides")
        done = asyncio.wait(tasks, timeout=200)
        _, pending = await done
        case.expect(not pending, "never-ended", f"{len(pending)}")

        # Let everything that's still in flight arrive.
        for _ in range(200):
            await asyncio.sleep(1.0)
            if not any(x.queue for x in links.values()) and all(
                x.delivered[-1][1] is not None
                for x in links.values()
                if x.delivered
            ):
                break
        else:
            case.fail("storm", "messages keep being exchanged")
        await asyncio.sleep(5)
        for item in pumps:
            if item.done():
                item.result()
                case.fail("pump", "message processing ended")
            item.cancel()

        verify(case, links, requests, left, right)
        case.distinct(
            [(x.kind, x.state, round(x.start or 0, 3)) for x in requests]
        )
        case.sample(
            f"{chaos} {[(x.token, x.kind, x.state) for x in requests][:8]}"
        )
        for conn in (left, right):
            conn.disable("done")
        del loop

    vloop.run(main(), limit=2000, grace=0)


def verify(case, links, requests, left, right):
    """Match what was exchanged with what every request reported."""

    for request in requests:
        request.verify_result()
        if request.ident is None:
            case.expect(
                request.state in ("new", "cancelled"),
                "not-sent",
                f"{request.kind} {request.state}",
            )
            continue
        back = links["right" if request.conn is left else "left"]
        replies = [
            x for x in back.delivered if x[2].get("__id__") == request.ident
        ]
        if request.state == "cancelled":
            case.event("cancelled")
            continue
        deadline = request.start + request.timeout
        took = request.end - request.start
        if request.state == "timeout":
            case.event("timeouts")
            case.expect(
                abs(took - request.timeout) < 1e-3,
                "timeout-time",
                f"{took} {request.timeout}",
            )
            if replies:
                case.event("late")
                case.expect(
                    replies[0][1] >= deadline - 1e-6,
                    "reply-missed",
                    f"{request.token} {replies[0][1]} {deadline}",
                )
        else:
            case.expect(replies, "no-reply", request.token)
            case.expect(
                replies[0][0] - 1e-6 <= request.end <= replies[0][1] + 1e-3,
                "reply-time",
                f"{request.token} {request.end} {replies[0][:2]}",
            )
            if request.state == "error":
                case.expect(
                    request.kind in ("command", "set"),
                    "error",
                    f"{request.kind} {request.result!r}",
                )

    # Every delivered request is answered once, replies never are.
    for name, conn in (("left", left), ("right", right)):
        incoming = links["right" if name == "left" else "left"].delivered
        sent = [x["__id__"] for _, x in links[name].sent if "__id__" in x]
        own = links[name].known
        for ident in own:
            case.equal(sent.count(ident), 1, "reply-answered", f"{ident}")
        theirs = links["right" if name == "left" else "left"].known
        for ident, request in theirs.items():
            count = sum(
                1 for x in incoming if x[2].get("__id__") == ident
            )
            case.equal(
                sent.count(ident), count, "answers", f"{request.token}"
            )
            if request.kind not in ("command", "set", "loopback"):
                case.equal(
                    conn.calls.get(request.token, 0),
                    count,
                    "handler-calls",
                    request.token,
                )
    return left, right


class TcpEnd(Mixin, TcpJsonMessageConnection):
    """A real TCP endpoint."""


class UdpEnd(Mixin, UdpJsonMessageConnection):
    """A real UDP endpoint."""


async def exchange(case, left, right, label):
    """Concurrent requests over real sockets."""

    rng = case.rng
    left.setup(case, "left")
    right.setup(case, "right")
    tasks = [
        asyncio.ensure_future(left.process()),
        asyncio.ensure_future(right.process()),
    ]
    await asyncio.wait_for(left.initialized.wait(), 30)
    await asyncio.wait_for(right.initialized.wait(), 30)
    case.expect(not left.disabled and not right.disabled, "handshake", label)
    for conn, peer in ((left, right), (right, left)):
        case.expect(conn.remote_meta is not None, "no-meta", label)
        case.equal(conn.remote_meta["kind"], type(peer).__name__, "meta")

    requests = []
    waiting = []
    for i in range(rng.randrange(2, 20)):
        conn, peer = rng.choice([(left, right), (right, left)])
        request = Request(case, conn, peer, None, i)
        # Real traffic: naps on logical time, generous timeouts.
        request.timeout = 50.0
        requests.append(request)
        waiting.append(asyncio.ensure_future(request.run()))
        case.event("requests")
        case.event(f"{label}_requests")
        if rng.random() < 0.3:
            await asyncio.sleep(rng.choice([0, 0.01, 0.5]))
    await asyncio.wait(waiting)
    for request in requests:
        # Command requests have a fixed timeout, naps can add up to more.
        if request.kind in ("command", "set") and request.state == "timeout":
            continue
        if request.state == "error":
            case.expect(request.kind in ("command", "set"), "error")
            continue
        case.equal(request.state, "done", "real", f"{request.kind}")
        request.verify_result()
        if request.kind not in ("command", "set", "loopback"):
            case.equal(
                request.peer.calls.get(request.token), 1, "handler-calls"
            )
    case.distinct(label, [(x.kind, x.token, x.state) for x in requests])
    case.expect(
        not left.disabled and not right.disabled, "connection-ended", label
    )
    left.disable("done")
    right.disable("done")
    await asyncio.wait(tasks)


def tcp(case):
    async def main():
        async with TcpEnd.create_pair() as (left, right):
            await exchange(case, left, right, "tcp")

    vloop.run(main(), limit=2000)


def udp(case):
    async def main():
        left, right = await UdpEnd.create_pair()
        await exchange(case, left, right, "udp")

    vloop.run(main(), limit=2000)


def same_data(case):
    """A message object can be sent again, also with pending log messages."""

    rng = case.rng

    async def main():
        sent = []
        conn = Memory(LOG)
        conn.outgoing = lambda x: sent.append(decode(x))
        data = nets.json_dict(rng)
        data.pop("__log_messages__", None)
        keep = json.dumps(data)
        logs = []
        for i in range(rng.randrange(2, 6)):
            if rng.random() < 0.6:
                conn.stage_remote_log("message %d", i)
                logs.append(i)
            conn.send_json(data)
            case.equal(json.dumps(data), keep, "data-changed")
        got = []
        for item in sent:
            got += [x["args"][0] for x in item.pop("__log_messages__", [])]
            case.equal(item, data, "sent")
        case.equal(got, logs, "staged-logs")
        conn.disable("done")

    vloop.run(main())


KINDS = {
    "memory": (memory, 400, 15000),
    "tcp": (tcp, 40, 600),
    "udp": (udp, 30, 400),
    "same": (same_data, 60, 600),
}
